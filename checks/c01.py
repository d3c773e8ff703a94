from vf import Part, Violation
import ref, hist

PROPERTY = 'C01'


def history(ctx, case):
    state, mode, tokens = case
    cmds, want = hist.concretise(case)
    if not any(c[0] in ('append', 'raw', 'add', 'make') for c in cmds):
        ctx.trivial()
        return
    got = ctx.ok('ops_model', 'play_history', state, cmds)
    n0 = [sum(p) for p in state['position']]
    for i, ((err, b, played, pool), (s, wp, wpool)) in enumerate(zip(got, want)):
        where = 'after command %d %r' % (i, cmds[i])
        ctx.check(err is None, '%s: %s' % (where, err))
        for k in ref.FIELDS:
            ctx.check(b[k] == s[k], '%s: %s is %r, expected %r' % (where, k, b[k], s[k]))
        ctx.label(cmds[i][0])
        if cmds[i][0] in ('append', 'raw') :
            d, src, dst, hit = cmds[i][1]
            ctx.label('hit' if hit else 'plain', *(['off'] if dst < 0 else []) + (['bar'] if src == 24 else []))


PARTS = [Part('history', hist.histories(), history, 2000, 12000,
              rule='the history plays at least one step')]
