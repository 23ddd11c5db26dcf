"""What each check runs: scenarios (name[:param=value...][*weight]), harnesses, time budget per tier (seconds of search)."""


def COPIES(h):
    if h == "comp_conc":
        return 1
    return 8 if h.startswith("comp_") else 14


def _p(scn, harness, quick=45, thorough=900):
    return {"scn": scn, "harness": harness.split(), "time": {"quick": quick, "thorough": thorough}}


PLAN = {
    "P01": _p("pubsub*3,crash,reqres", "sys"),
    "P02": _p("pubsub*4,crash:idle=1", "sys"),
    "P03": _p("pubsub*4,crash:idle=1", "sys"),
    "P04": _p("pubsub*3,blocked*3,crash:idle=1", "sys"),
    "P05": _p("pubsub*3,crash,churn,reqres", "sys"),
    "P06": _p("crash", "sys"),
    "P07": _p("alive", "sys"),
    "P08": _p("churn", "sys"),
    "P09": _p("reqres", "sys"),
    "P10": _p("events", "sys"),
    "P11": _p("detach*4,events", "sys"),
    "P12": _p("mpmc:trackbuf=1*3,mpmc_resize:trackbuf=1*4,sofi*2,fifo*2,loffli*3", "comp_conc"),
    "P13": _p("mutex*2,spinlock*2,smartlock,usem*2,nsem,spinsem*2,periodic,robust*2", "comp_conc comp_posix"),
    "P14": _p("start*3,filelock", "sys comp_posix"),
    "P15": _p("builders*2,sysfault*2,sysfault:daemonrun=1*2,uds:faults=1,mq:faults=1,pipe:faults=1", "sys comp_posix"),
    "P16": _p("uds*2,udsre*2,mq*2,pipe*2,uds:eintr=1,mq:eintr=1,pipe:eintr=1", "comp_posix"),
    "P17": _p("limports*3,limdata,limproc", "sys"),
    "P18": _p("intro*3,pubsub", "sys"),
}
