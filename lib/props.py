"""What each property's check explores and which oracle verdicts count for it.

profiles: (profile of sim/plan.go, share of the runs)
classes:  oracle classes (sim/oracle.go, sim/final.go) whose verdicts are violations of the property
witness:  statistics of a run, any of which shows that the property was exercised
runs:     simulated runs for (quick, thorough)
"""
P = {
    "C01": dict(profiles=[("memb", .4), ("inv", .2), ("slow", .2), ("mix", .2)], classes=["conf", "priv", "invite-leak"], witness=["initial_rooms", "timeline_events"], runs=(640, 20000)),
    "C02": dict(profiles=[("tl", .4), ("slow", .2), ("gap", .15), ("mix", .1), ("crash", .15)], classes=["tl-order", "tl-end"], witness=["timeline_events"], runs=(640, 20000)),
    "C03": dict(profiles=[("lists", .5), ("slow", .15), ("memb", .2), ("mix", .15)], classes=["list-op", "list-final", "member-final"], witness=["initial_rooms"], runs=(640, 20000)),
    "C04": dict(profiles=[("memb", .3), ("mix", .25), ("gap", .3), ("tl", .15)], classes=["meta-final", "state-final"], witness=["rooms_checked", "fresh_checked"], runs=(640, 20000)),
    "C05": dict(profiles=[("crash", .7), ("gap", .15), ("mix", .15)], classes=["tl-order", "tl-end", "list-final", "member-final", "meta-final", "state-final", "unread-final", "acct-final", "receipt-final", "td", "invite-final", "panic"], witness=["fresh_checked"], runs=(640, 20000)),
    "C06": dict(profiles=[("td", .8), ("mix", .2)], classes=["td"], witness=["to_device"], runs=(640, 20000)),
    "C07": dict(profiles=[("e2ee", .8), ("mix", .2)], classes=["e2ee"], witness=["responses"], runs=(640, 20000)),
    "C08": dict(profiles=[("retry", .8), ("mix", .2)], classes=["pos", "list-op", "tl-order", "tl-end", "td", "acct-final"], witness=["responses"], runs=(640, 20000)),
    "C09": dict(profiles=[("user", .6), ("slow", .15), ("mix", .25)], classes=["acct-final", "priv"], witness=["account_data"], runs=(640, 20000)),
    "C10": dict(profiles=[("user", .6), ("slow", .15), ("mix", .25)], classes=["receipt-final", "unread-final", "priv"], witness=["receipts"], runs=(640, 20000)),
    "C11": dict(profiles=[("auth", .85), ("mix", .15)], classes=["auth", "unread-final", "member-final"], witness=["sync_401", "revoked_checked"], runs=(640, 20000)),
    "C12": dict(profiles=[("mix", .25), ("slow", .15), ("auth", .15), ("retry", .15), ("crash", .15), ("lists", .15)], classes=["live", "panic"], witness=["responses"], runs=(640, 20000)),
    "C13": dict(profiles=[("txn", .8), ("mix", .2)], classes=["txn"], witness=["txn_seen"], runs=(640, 20000)),
    "C14": dict(profiles=[("inv", .8), ("mix", .2)], classes=["invite-final", "invite-leak", "member-final", "list-final"], witness=["initial_rooms"], runs=(640, 20000)),
    "C15": dict(profiles=[("typ", .45), ("user", .25), ("slow", .1), ("mix", .2)], classes=["typing-final"], witness=["op_typing"], runs=(640, 20000)),
    "C16": dict(profiles=[("long", .85), ("mix", .15)], classes=["house", "pos", "td", "txn", "tl-order", "tl-end", "member-final", "list-final", "state-final", "meta-final", "acct-final"], witness=["house_checked"], runs=(320, 8000)),
}
