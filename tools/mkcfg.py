#!/usr/bin/env python3
"""Writes the TLC configurations of the design models into spec/ (or DIR), one
per bound; with a second argument, for that known-bad variant of the design."""
import os, sys
BASE = dict(NConn=1, NApp=2, MaxIn=1, Pkt=2, MsgLen=2, Reply=1, Windows='{0, 1, 1000}', NSend=0, NClose=0, NShut=0,
            NTask=0, NStop=0, Ends='{}', Fails='{}', Fin=1, Variant='"none"')
ONE = '{1000}'
C = {
    # one connection: replies, concurrent sends with completion functions, a peer that blocks and reads on
    'AlgIo': dict(NSend=2, Fails='{"spur"}'),
    'AlgIoX': dict(NSend=3, MaxIn=2, Windows='{0, 1, 3, 1000}'),
    # one connection ends: Close, orderly end, reset
    'AlgLife': dict(NSend=1, NClose=1, MaxIn=1, Ends='{"half", "rst"}', Windows='{1, 1000}'),
    'AlgLifeX': dict(NSend=1, NClose=2, MaxIn=2, Ends='{"half", "rst"}', Windows='{1, 1000}'),
    # ShutdownWrite among sends
    'AlgShut': dict(NSend=2, NShut=1, Windows='{1, 1000}', Ends='{"half"}', Fin=0, Reply=0, MaxIn=0),
    'AlgShutX': dict(NSend=2, NShut=1, NClose=1, Windows='{1, 1000}', Ends='{"half"}', Fin=0, Reply=0),
    # tasks from several goroutines, without and with Stop
    'AlgTask': dict(NConn=0, NTask=3, NApp=3, Windows=ONE),
    'AlgTaskX': dict(NConn=0, NTask=5, NApp=3, Windows=ONE),
    'AlgTaskStop': dict(NConn=0, NTask=2, NStop=1, NApp=3, Windows=ONE),
    'AlgTaskStopX': dict(NConn=0, NTask=3, NStop=1, NApp=3, Windows=ONE),
    # Stop while connections arrive, send, close
    'AlgStop': dict(NConn=2, NStop=1, NApp=1, MaxIn=0, Windows=ONE, Reply=0),
    'AlgStopX': dict(NConn=2, NStop=1, NTask=1, NSend=1, NApp=2, MaxIn=0, Windows=ONE, Reply=0),
    'AlgStopSend': dict(NStop=1, NSend=1, NApp=2, MaxIn=0, Windows='{1, 1000}'),
    'AlgStopSendX': dict(NStop=1, NSend=1, NClose=1, NApp=3, MaxIn=1, Windows='{1, 1000}'),
    'AlgStopEnd': dict(NStop=1, NClose=1, NApp=2, Windows=ONE, Ends='{"half"}'),
    # sockets that cannot be set up or registered
    'AlgFail': dict(NConn=2, NApp=1, Windows=ONE, Fails='{"nb", "add"}', NSend=1, Ends='{"rst"}', Reply=0),
    'AlgFailX': dict(NConn=3, NApp=1, Windows=ONE, Fails='{"nb", "add"}', NSend=1, NClose=1, MaxIn=0, Ends='{"rst"}', Reply=0),
    # two connections
    'AlgTwo': dict(NConn=2, NApp=1, NSend=1, Windows='{1, 1000}', Fin=0),
    'AlgTwoX': dict(NConn=2, NApp=2, NSend=1, NClose=1, Windows='{1, 1000}', Fin=0),
}
LIVE = {
    'AlgLive': dict(NConn=0, NTask=2, NStop=1, NApp=2, Windows=ONE),
}


def main():
    out = sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
    var = sys.argv[2] if len(sys.argv) > 2 else 'none'
    for n, d in list(C.items()) + list(LIVE.items()):
        x = dict(BASE, **d, Variant='"%s"' % var)
        with open(os.path.join(out, n + '.cfg'), 'w') as f:
            f.write('SPECIFICATION AlgSpec\nCONSTANTS\n  Prop = "all"\n' + ''.join('  %s = %s\n' % kv for kv in x.items()))
            f.write('INVARIANTS Implements Sound\nCHECK_DEADLOCK FALSE\n')
            f.write('PROPERTIES EveryTaskRuns StopReturns\n' if n in LIVE else 'CONSTRAINT Stop1\n')


if __name__ == '__main__':
    main()
