"""Which harnesses decide which property."""


def both(src, dbg=5, **kw):
    """both dimensions in the release build, and every dbg-th inner case again
    in the build with the assertions of the library enabled"""
    r = [dict(src=src, dim=2, weight=3, **kw), dict(src=src, dim=3, weight=3, **kw)]
    if dbg:
        for d in (2, 3):
            r.append(dict(src=src, dim=d, flavor='dbg', args=['--stride', str(dbg)], tag='-every%d' % dbg, **kw))
    return r


PLANS = {
    'C01': dict(runs=both('C01')),
    'C02': dict(runs=both('C02')),
    'C03': dict(runs=both('C03', dbg=25)),
    'C04': dict(runs=both('C04')),
    'C05': dict(runs=both('C05')),
    'C06': dict(runs=both('C06', dbg=25)),
    'C07': dict(runs=both('C07')),
    'C08': dict(runs=both('C08', dbg=40)),
    'C09': dict(runs=both('C09')),
    'C10': dict(runs=both('C10')),
    'C11': dict(runs=both('C11')),
    'C12': dict(runs=both('C12')),
    'C13': dict(runs=both('C13')),
    'C14': dict(runs=both('C14')),
    'C15': dict(runs=both('C15')),
    'C16': dict(runs=both('C16')),
    'C17': dict(runs=both('C17')),
    'C18': dict(runs=both('C18')),
    'C19': dict(runs=both('C19')),
    'C20': dict(runs=both('C20')),
    'C21': dict(runs=both('C21')),
    'C22': dict(runs=both('C22')),
    'C23': dict(runs=both('C23', dbg=13)),
    'C27': dict(runs=[r for r in both('C27', dbg=7) if r['dim'] == 2]),
    'C28': dict(runs=[r for r in both('C28', dbg=7) if r['dim'] == 2]),
    'C29': dict(runs=both('C29', dbg=7)),
    'C30': dict(runs=both('C30', dbg=7)),
    'C24': dict(runs=both('C24', dbg=9)),
    'C25': dict(runs=both('C25')),
    'C26': dict(runs=both('C26')),
}
