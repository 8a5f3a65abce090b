"""What the theorems of a property leave unchecked (written into its evidence)."""
APPLIED = {
    'read_event': 'contract of read_event applied in the theorems about sequences: the event is a function of the log and the '
                  'position; which function is what the theorems of P07-P22 say (their composition is by hand)',
    'Record': 'contract of Record applied in the theorems about any number of records: what the theorems about one record of each '
              'kind prove (their composition is by hand; sizes fit into 32 bits)',
    'RuleStruct': 'contract of RuleStruct applied in the theorems about lists of rules: what the theorems about one rule prove '
                  '(their composition is by hand)',
    'value of an option': 'reading the value of an option is havocked (it fails, or gives anything and leaves the position anywhere), '
                          'assuming that it changes neither the sizes kept by the enclosing record nor the file',
}
CALENDAR = 'calendar, time-zone and address formatting computations are the same uninterpreted functions on both sides'
PML = ['logs are well-formed where the specification (/verif/specs) needs it; otherwise nothing is claimed', CALENDAR,
       'decoding of texts is the same uninterpreted function of their bytes on both sides']
PMC = ['construct is executed symbolically from its installed source (not assumed); its compiled or cached forms are not used',
       'texts are those that UTF-16 can encode (no lone surrogates) and do not end in NUL; sizes fit into 32 bits']


def assumptions(prop, applied):
    n = int(prop[1:])
    out = list(PML if n <= 22 or n in (26, 27, 28) else PMC if n in (32, 33, 34, 35) else [CALENDAR])
    for k in sorted(applied):
        for a, text in APPLIED.items():
            if k == a or k.endswith('.' + a):
                out.append(text)
    return out
