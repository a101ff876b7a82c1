"""Why a property has no check."""
NA = {
    'C90': 'Quantifies over the DNS standard itself and all resolutions; deciding it statically needs a semantic model of DNS '
           'proved equivalent to the whole program. The local obligations it rests on are C10-C26 and C30-C46.',
    'C91': 'A statement over pairs of unbounded resolutions of two names of one class; no sound static argument in reach '
           'relates the two executions. The generation rules it rests on are decided under C16 and C17.',
    'C92': 'A complexity bound over unbounded data; no static cost analysis in reach bounds the recursion over paths.',
}
