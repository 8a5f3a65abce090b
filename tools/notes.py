"""Per property: why it is not claimed (NA), or how its check differs from the default (NOTE)."""
NA = {}
PMC = {'note': 'Every obligation is generated from /repo\'s current source: the format declarations are executed symbolically together with '
               'the construct library that interprets them. One record of every kind is proved for all values; lists of rules and any number '
               'of records are proved with the contract of one rule / one record (what those theorems say). The bounded comparison on '
               'enumerated configurations is an addition. Trusted: the interpreter in dv/, its models, Z3.'}
NOTE = {p: PMC for p in ('P32', 'P33', 'P34', 'P35')}
