"""Which specifications decide which property, with which constants."""

PROPS = {}
BROKER_FIELDS = dict(out=["plen", "plhex", "fmt", "exp", "ta", "ct", "rt", "cd", "up", "sids", "sz", "se", "rm", "mq", "ra", "mp",
                          "tam", "wsa", "sia", "ssa", "ska", "acid", "opcode"], step=["panics", "clients", "online"])


TWO = r"\A c \in DOMAIN st.ses : Cardinality(st.ses[c].subs) <= 2"


def q(s):
    return f'"{s}"'


def gen(prof, quick, thorough, depth=40, mcdepth=0, mcdepth_thorough=0, bound="TRUE", cap=1500, cap_thorough=20000, mixed=(0, 0), **kw):
    """Broker specification with the inputs of one profile: exhaustive alphabet to depth `mcdepth`, random histories."""
    b = dict(mod="Gen", name="Gen-" + prof, fields=BROKER_FIELDS, trace=dict(Prof=q(prof)), cap=cap, cap_thorough=cap_thorough,
             mcdefs="MCBound == " + bound, mcworkers=4,
             sim=[dict(const=dict(Prof=q(prof)), depth=depth, num_quick=quick, num_thorough=thorough)])
    if mcdepth:
        b["mc"] = dict(Prof=q(prof), depth=mcdepth)
        b["mc_thorough"] = dict(depth=mcdepth_thorough or mcdepth + 1)
    if mixed[0]:
        b["sim"].append(dict(const=dict(Prof=q("mix")), depth=50, num_quick=mixed[0], num_thorough=mixed[1]))
    b.update(kw)
    return b


PROPS["P01"] = dict(
    models=[dict(mod="RouteTrieMC", quick={"MaxSubs": 3}, thorough={"MaxSubs": 4})],
    bound=[dict(
        mod="Route", mc=dict(NC=2, MaxOnline=2, depth=9, Filters="<- MCFilters"), mcworkers=4,
        mcdefs="""MCFilters == {<<"a">>, <<"a","b">>, <<"+","b">>, <<"a","#">>, <<"#">>, <<"$x","#">>}
MCBound == \\A c \\in C : Cardinality(st.subs[c]) <= 2""",
        cap=1500, cap_thorough=12000,
        sim=[dict(const=dict(NC=4, MaxOnline=4), depth=40, num_quick=700, num_thorough=8000)],
        trace=dict(NC=4, MaxOnline=4)),
        gen("route", 300, 6000, mcdepth=6, mcdepth_thorough=8, bound=TWO)],
)

# profile, depth of exhaustive exploration (quick, thorough)
PROFILES = dict(P02=("options", 5, 7), P03=("shared", 8, 10), P04=("retain", 6, 8), P05=("queue", 9, 13), P06=("qos2in", 8, 11),
                P07=("window", 9, 13), P08=("order", 7, 10), P09=("resume", 7, 9), P10=("expiry", 7, 10), P11=("takeover", 6, 8),
                P12=("will", 6, 8), P18=("alias", 6, 9), P19=("limits", 4, 6), P21=("counts", 8, 11), P24=("msgexp", 8, 11),
                P25=("content", 5, 7))
for pid, (prof, d1, d2) in PROFILES.items():
    PROPS[pid] = dict(bound=[gen(prof, 700, 12000, mcdepth=d1, mcdepth_thorough=d2, bound=TWO, mixed=(150, 3000))])
PROPS["P13"] = dict(bound=[dict(
    mod="KeepAlive", mc=dict(NC=2, Small=True, depth=6), mc_thorough=dict(depth=7), mcworkers=4, mcdefs="MCBound == st.now <= 9000",
    cap=1000, cap_thorough=10000, sim=[dict(const=dict(NC=4, Small=False), depth=40, num_quick=900, num_thorough=8000)],
    fields=dict(out=["ska"], step=["panics"]), nets=[{}, {}, {"rchunk": 1}, {"rchunk": 3, "lazy": 1}, {"wchunk": 7}], trace=dict(NC=4, Small=False))])
NOT_APPLICABLE = {}
