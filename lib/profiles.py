"""Which commands the programs of each property are made of."""
B = dict(echo=4, state=2, set=3)
I = {"if": 2}
P = {
    "ops": (dict(B, ok=3, fail=4, block=2, chain=0, pipe=.7, **{"if": 1}), dict(chain=.6)),
    "goto": (dict(B, redir=.5, pipe=.3, goto=4, block=2, fail=1, **{"for": 1, "if": 2}, call=1, exitb=.3), dict(nseg=[2, 3, 4])),
    "call": (dict(B, redir=.8, block=.7, forf=.2, call=4, callfile=3, callbad=1, path=.7, shift=.5, setlocal=.5, exitb=.5, goto=.5, cd=.3), dict(setlocal=True)),
    "el": (dict(B, redir=.4, pipe=.3, fail=3, ok=2, exitb=1, exit=.3, call=2, callfile=1, child=1, block=1, **I), dict(probe=.7)),
    "env": (dict(block=.4, call=.4, redir=.2, echo=3, set=6, setlist=2, state=.5, **{"if": .5, "for": .5}), dict(exp=.2)),
    "local": (dict(B, redir=.3, pipe=.2, forf=.2, child=.3, setlocal=3, endlocal=3, call=2, callfile=.5, set=4, goto=.5, block=.5), dict(setlocal=True, delayed=.4)),
    "expand": (dict(echo=6, set=4, call=1, shift=.2, **{"for": 1}), dict(exp=.7, mods=True, nargs=[2, 3, 4])),
    "delayed": (dict(echo=4, set=4, state=1, block=3, fail=1, **{"for": 2, "if": 2, "forl": 1}), dict(delayed=.7)),
    "lex": (dict(echo=4, set=2, block=3, call=1, **{"if": 2, "for": 1}), dict(odd=True, at=True, delayed=.3)),
    "for": (dict(B, redir=.4, call=.4, pipe=.2, goto=.3, block=1, **{"for": 4, "forl": 3, "if": 1}), dict(glob=True, mods=True, delayed=.3)),
    "forf": (dict(B, redir=.4, call=.4, pipe=.2, forf=5, block=.5, goto=.2, **{"for": .5, "if": .5}), dict(mods=True)),
    "if": (dict(B, goto=.3, pipe=.2, redir=.3, fail=.5, block=.5, **{"if": 6}), dict()),
    "redir": (dict(B, redir=5, setlist=1, fail=1, block=1, call=1, ask=1, pwd=.5, **{"if": .5, "for": .5}), dict()),
    "args": (dict(block=.4, redir=.3, echo=4, shift=3, call=3, callfile=2, child=1, set=1), dict(mods=True, nargs=[0, 2, 4, 9, 11, 14])),
    "child": (dict(B, redir=.5, block=.5, pipe=.3,  path=1, ask=1.3, child=4, callfile=1, cd=.5, setlocal=.5, exit=.3, exitb=.5), dict(setlocal=True)),
    "def": (dict(B, redir=.5, pipe=.3, forf=.2, callfile=.3, **{"def": 5}, deflocal=2, call=1, block=.5, setlist=.3), dict()),
    "dirs": (dict(redir=.3, pipe=.2, callfile=.4, forf=.2, echo=1, cd=4, pushd=3, popd=3, pwd=3, call=.5, setlocal=.2, block=.5, child=.5), dict()),
    "files": (dict(echo=1, state=1, md=2, rd=2, ren=2, copy=4, move=3, cd=.2, block=.3, **{"del": 3, "if": 1, "for": .5}), dict(nline=4, tree=True)),
    "dir": (dict(echo=.5, state=.5, md=1.5, rd=.7, ren=.7, copy=1.2, move=.8, dir=8, cd=.7, block=.5, redir=.3, **{"del": .7, "if": .5, "for": .5}), dict(nline=4, tree=True)),
    "filters": (dict(echo=1, state=.5, set=1, type=2, find=4, wc=3, more=3, xargs=2, input=3, pipef=4, redir=1, block=.7, call=.5, **{"if": .5, "for": .5}), dict(filters=True, chain=.2, long=.06)),
    "pipes": (dict(B, pipe=3, pipef=4, big=.3, redir=1, block=1, call=.7, type=.5, find=.5, setlist=.3, cd=.2, fail=.5, ask=.3, **{"if": .7, "for": .7}), dict(filters=True, big=True, chain=.3)),
    "ext": (dict(B, ext=6, path=1.2, callfile=.5, child=.5, pipef=1, redir=1.5, ask=.7, cd=.5, block=.7, call=.7, setlocal=.3, fail=.3, **{"if": .7, "for": 1}), dict(filters=True, nargs=[0, 1, 2], setlocal=True)),
    "argv": (dict(B, ask=1.5, prompt=1, echostate=1, pause=.5, pushd=.5, popd=.3, type=.5, block=1.5, callfile=.7, child=1, fail=1, cd=.5, setlocal=.4, exit=.3, exitb=.2, redir=.7, goto=.3, call=.3, pipef=.5, **{"if": 1, "for": 1}), dict(argv=True, setlocal=True, delayed=.3, filters=True)),
    "seta": (dict(echo=.5, seta=6, shown=3, set=.3, forn=1, block=.3, call=.5, **{"if": .5}), dict(nline=5, delayed=.3, neg=True)),
}
