from runner import Model, Replay, Random, Screen, Check
CHECKS = {}
def add(pid, *parts, **kw):
    CHECKS[pid] = Check(pid, list(parts), **kw)

def channel(ops, mode, q, t, caps=(0, 1, 2)):
    m = Model('MC_Channel', dict(Caps=set(caps), MaxOps=q, Ops=set(ops)), dict(Caps=set(caps), MaxOps=t, Ops=set(ops)), view='NoHist', emit='Emit')
    return [m, Replay(m, 'channel', 'Trace_Channel', sample=4800, sample_thorough=100000),
            Random('channel', 'Trace_Channel', 6400, 200000, mode=mode), Screen('channel', 'Trace_Channel', 40000, 1000000, mode=mode)]
add('C07', *channel({'send', 'later', 'recv', 'bad'}, 'fifo', 7, 8))
add('C08', *channel({'send', 'recv', 'all', 'bad'}, 'all', 7, 8, caps=(1, 2, 3)))
add('C09', *channel({'send', 'recv', 'all', 'close', 'bad'}, 'all,close', 6, 7))

m = Model('MC_Object', dict(Objs={1, 2}, Weaks={1, 2, 3}, MaxOps=6, MaxCnt=2), dict(Objs={1, 2}, Weaks={1, 2, 3}, MaxOps=8, MaxCnt=3), view='NoHist', emit='Emit')
add('C15', m, Replay(m, 'object', 'Trace_Object', sample=3200), Random('object', 'Trace_Object', 9600, 400000))

def future(pid, n, kinds, acts, q, t, behs=('N',), sample=3200, runs=6400):
    c = lambda ops, nodes, mem=2: dict(MaxOps=ops, MaxNodes=nodes, Kinds=set(kinds), Acts=set(acts), Behs=set(behs), MaxMem=mem)
    m = Model('MC_Future', c(*q), c(*t), view='NoHist', emit='Emit', properties=('Stable', 'Wanted'))
    add(pid, m, Replay(m, 'future', 'Trace_Future', sample=sample), Random('future', 'Trace_Future', runs, 200000, mode=str(n)))
future('C01', 1, {'promise', 'cancel', 'static', 'bad', 'then', 'any'}, {'resolve', 'reject', 'cancel', 'drop'}, (5, 3), (6, 3), behs={'N', 'V'})
future('C02', 2, {'promise', 'static', 'then', 'finally', 'all', 'any', 'disown'}, {'resolve', 'reject', 'drop'}, (5, 3), (6, 4))
future('C03', 3, {'promise', 'static', 'bad', 'then', 'finally', 'catch', 'thenloop', 'catchloop', 'finallyloop'}, {'resolve', 'reject', 'drop'}, (4, 3), (5, 3), behs={'N', 'V', 'EN', 'M'})
future('C04', 4, {'promise', 'static', 'bad', 'all', 'any', 'first', 'race'}, {'resolve', 'reject'}, (5, 4), (5, 4, 3))
future('C05', 5, {'cpromise', 'static', 'any', 'all', 'delayed', 'disown', 'finally'}, {'resolve', 'drop'}, (5, 3), (6, 4))
future('C06', 6, {'promise', 'static', 'bad', 'delayed', 'any', 'finally'}, {'resolve', 'reject', 'release', 'dup', 'drop'}, (5, 3), (6, 4))

mw = Model('WSQ', dict(Cap=2, MaxOps=5, Thieves={1, 2}, MaxSteals=1, Fence=True, TSO=True), dict(Cap=2, MaxOps=6, Thieves={1, 2}, MaxSteals=2, Fence=True, TSO=True))
md = Model('MC_Deque', dict(Caps={1, 2, 4}, MaxOps=9), dict(Caps={1, 2, 4, 8}, MaxOps=14), view='NoHist', emit='Emit')
mp = Model('MC_Pool', dict(Ws={1, 2}, MaxItems=4, MaxKids=2, MaxOps=5), dict(Ws={1, 2, 3}, MaxItems=5, MaxKids=2, MaxOps=6), view='NoHist', emit='Emit', properties=('Allowed',))
add('C11', mw, md, mp, Replay(md, 'wsq', 'Trace_Deque', sample=1600), Replay(mp, 'pool', 'Trace_Pool', mode='all', sample=800),
    Random('wsq', 'Trace_Deque', 12800, 400000), Random('pool', 'Trace_Pool', 4000, 100000, mode='all'), Random('pool', 'Trace_Pool', 800, 20000, variant='uring', mode='all-eventfd'))
add('C23', mp, Random('pool', 'Trace_Pool', 6400, 200000, mode='release'))
ml = Model('MC_Loop', dict(Loops={1, 2}, MaxItems=3, MaxKids=2, MaxOps=4), dict(Loops={1, 2}, MaxItems=4, MaxKids=2, MaxOps=5), view='NoHist', emit='Emit', properties=('Allowed',))
add('C12', ml, Replay(ml, 'sched', 'Trace_Loop', sample=1600), Random('sched', 'Trace_Loop', 6400, 200000))

m = Model('MC_Sem', dict(Ks={1, 2}, MaxOps=6, MaxPost=2), dict(Ks={1, 2, 3}, MaxOps=7, MaxPost=2), view='NoHist', emit='Emit')
me = Model('MC_SemEv', dict(Ks={1, 2}, MaxOps=6, MaxPost=2), dict(Ks={1, 2, 3}, MaxOps=8, MaxPost=3))
add('C10', m, me, Replay(m, 'sem', 'Trace_Sem', sample=3200), Random('sem', 'Trace_SemEv', 1600, 40000, variant='uring', mode='eventfd'), Random('sem', 'Trace_Pool', 800, 20000, variant='uring', mode='queue-eventfd'), Random('sem', 'Trace_Sem', 6400, 200000), Random('sem', 'Trace_Pool', 3200, 100000, mode='queue'),
    Screen('sem', 'Trace_Sem', 40000, 1000000))

mf = lambda own, acts, q, t: Model('MC_Fiber', dict(Own=own, Acts=set(acts), MaxP=q[0], MaxF=q[1], MaxOps=q[2]), dict(Own=own, Acts=set(acts), MaxP=t[0], MaxF=t[1], MaxOps=t[2]), view='NoHist', emit='Emit')
m1, m2 = mf(True, ['two'], (2, 2, 7), (2, 2, 8)), mf(False, ['two'], (2, 3, 6), (2, 3, 7))
add('C13', m1, m2, Replay(m1, 'fiber', 'Trace_Fiber', sample=2000), Replay(m2, 'fiber', 'Trace_Fiber', sample=800), Random('fiber', 'Trace_Fiber', 6400, 200000, mode='plain'), Screen('fiber', 'Trace_Fiber', 60000, 2000000, mode='plain', variant='clang'))
m1, m2 = mf(True, ['dep'], (1, 2, 7), (2, 2, 8)), mf(False, ['dep'], (1, 2, 7), (2, 2, 8))
add('C14', m1, m2, Replay(m1, 'fiber', 'Trace_Fiber', sample=2000), Replay(m2, 'fiber', 'Trace_Fiber', sample=800), Random('fiber', 'Trace_Fiber', 6400, 200000, mode='cancel'), Screen('fiber', 'Trace_Fiber', 120000, 2000000, mode='cancel', variant='clang'))

m = Model('MC_Timer', dict(MaxT=2, MaxOps=5, Ds={0, 1, 2}), dict(MaxT=2, MaxOps=6, Ds={0, 1, 2}), view='NoHist', emit='Emit', properties=('Final',))
add('C16', m, Replay(m, 'timer', 'Trace_Timer', sample=3200), Random('timer', 'Trace_Timer', 6400, 200000), Screen('timer', 'Trace_Timer', 40000, 1000000))
m = Model('MC_Result', dict(MaxR=2, NP=1, NC=1, Ks={1, 2}, MaxOps=6), dict(MaxR=2, NP=2, NC=1, Ks={1, 2}, MaxOps=7), view='NoHist', emit='Emit', properties=('Once',))
add('C18', m, Replay(m, 'result', 'Trace_Result', sample=3200), Random('result', 'Trace_Result', 6400, 200000), Screen('result', 'Trace_Result', 40000, 1000000))

m = Model('MC_Signal', dict(MaxF=3, Srcs={1, 2, 11}, MaxOps=5), dict(MaxF=3, Srcs={1, 2, 11}, MaxOps=6), view='NoHist', emit='Emit', properties=('Final',))
add('C21', m, Replay(m, 'signal', 'Trace_Signal', sample=3200), Random('signal', 'Trace_Signal', 6400, 200000), Screen('signal', 'Trace_Signal', 40000, 1000000))

m = Model('MC_Pair', dict(MaxX=2, MaxD=2, MaxOps=6), dict(MaxX=2, MaxD=2, MaxOps=7), view='NoHist', emit='Emit', properties=('Final',))
add('C17', m, Replay(m, 'pair', 'Trace_Pair', sample=3200), Random('pair', 'Trace_Pair', 6400, 200000), Screen('pair', 'Trace_Pair', 40000, 1000000))

m = Model('MC_Value', dict(MaxOps=3, MaxF=1, Ctors=set('biulmfdsSpoOxvVECR'), Resolvers=set('biulmLUfdsovVC'), Awaits=set('piulmdfxvobsegDG')),
          dict(MaxOps=4, MaxF=1, Ctors=set('biulmfdsSpoOxvVECR'), Resolvers=set('biulmLUfdsovVC'), Awaits=set('piulmdfxvobsegDG')), view='NoHist', emit='Emit', properties=('Final',))
add('C19', m, Replay(m, 'value', 'Trace_Value', sample=3200), Random('value', 'Trace_Value', 6400, 200000), Screen('value', 'Trace_Value', 40000, 1000000))
m = Model('MC_Fd', dict(MaxF=3, MaxB=2, MaxOps=5), dict(MaxF=3, MaxB=3, MaxOps=6), view='NoHist', emit='Emit', properties=('Final',))
add('C24', m, Replay(m, 'value', 'Trace_Fd', mode='fd', sample=3200), Random('value', 'Trace_Fd', 6400, 200000, mode='fd'), Screen('value', 'Trace_Fd', 40000, 1000000, mode='fd'))

m = Model('MC_Aio', dict(Fs={1, 2, 4, 5}, Offs={9, 1}, Ns={2}, MaxReq=3, MaxOps=4), dict(Fs={1, 2, 3, 4, 5, 6}, Offs={9, 1}, Ns={0, 2}, MaxReq=3, MaxOps=4), view='NoHist', emit='Emit', invariants=('Inv', 'AtRest'), properties=('Final',))
add('C20', m, Replay(m, 'aio', 'Trace_Aio', sample=2400), Random('aio', 'Trace_Aio', 4800, 100000), Random('aio', 'Trace_Aio', 1600, 40000, variant='uring'),
    Screen('aio', 'Trace_Aio', 40000, 1000000), Screen('aio', 'Trace_Aio', 20000, 500000, variant='clang'))

m = Model('MC_Gio', dict(Fns=set(range(26)), MaxX=1, MaxD=2, MaxOps=6), dict(Fns={1, 15, 23}, MaxX=2, MaxD=3, MaxOps=8), view='NoHist', emit='Emit', properties=('Final',))
add('C22', m, Replay(m, 'gio', 'Trace_Gio', sample=2400), Random('gio', 'Trace_Gio', 3200, 100000), Screen('gio', 'Trace_Gio', 40000, 1000000))

m = Model('MC_Stack', dict(MaxF=3, MaxK=2, MaxOps=7, Sizes={0, 4, 6, 12}, Max=0), dict(MaxF=4, MaxK=2, MaxOps=8, Sizes={0, 3, 4, 6, 7, 8, 9, 12}, Max=1), view='NoHist', emit='Emit')
add('C25', m, Replay(m, 'fiber', 'Trace_Fiber', sample=2400), Random('fiber', 'Trace_Fiber', 3200, 100000, mode='stack'), Screen('fiber', 'Trace_Fiber', 20000, 500000, mode='stack', variant='clang'))
