"""Properties that are not claimed, with the reason."""
NOT_APPLICABLE = {
    'C27': 'accuracy of the shortest-digits algorithm is a fact about the numerical content of its power tables and 64-bit rounding; no sound '
           'static domain within reach bounds the rounding error for every float',
    'C28': 'round-trip equality composes two recursive programs over unbounded values; the parts that a static argument reaches are claimed '
           'separately (grammar, escapes, numbers and structure on the parsing side; grammar, escapes and numbers on the printing side)',
    'C29': 'line and column are results of counting over the whole text before the error by library string iterators; the abstract domain keeps no '
           'relation between such counts and the text',
}
NOT_APPLICABLE.update({
    'C19': 'needs an alias relation between every inline key buffer and its pointer across reallocation of the node array; the domain of symbolic nodes '
           'has no predicate over all nodes up to an index, so no sound check was finished',
    'C24': 'formatting and indexing go through code that panics as documented; parts are decided under C03, C10, C12, C14, C15 and C21, '
           'no separate sound check was finished',
    'C26': 'composes C04, C09, C18 and C21, which are claimed; the public Generator::write accepts any bytes, so the statement over all histories has no static bound',
})
PENDING = 'no check has been built for it yet'
