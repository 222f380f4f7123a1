"""C47: an MXML document converted to XES keeps everything."""
from props.common import check_read_log, write_log, large_log
from props.c46 import mxml, read, put_file, same_log, WHAT
from props.c43 import header
BOUNDS = {"quick": "documents with source, process and 2 instances of 2 entries; names, types, originators, data attributes and model references with one arbitrary text "
                   "(length 0 to 2) and one arbitrary character each, present or not, times at any hour; plain and compressed on both sides; conversion by way of two XES files; a log of 25 traces, 60 events in one of them, 30 attributes and 30 levels",
          "thorough": "texts of length 0 to 4"}
OUTSIDE = "documents that the MXML reader refuses; texts whose characters XML cannot carry"
ASSUMES = ["xml.sax, ElementTree and minidom behave as modelled in symx/xmlstub.py (checked on witnesses at every run)"]
SER = ["data_out.XesXmlSerializer", "data_out.XesXmlGZIPSerializer"]
PARS = ["data_in.XesXmlParser", "data_in.XesXmlGZIPParser"]


def convert(sx, what, gz, out, by, lens):
    sfx = ".gz" if gz else ""
    if what == "big":
        p = write_log(sx, large_log(sx, traces=25, events=60, attrs=30, items=40, chars="abcXYZ.<&", empty=False), "d.mxml" + sfx, "data_out.XMxml%sSerializer" % ("GZIP" if gz else ""))
    else:
        p = put_file(sx, mxml(sx, "a", what, lens), "d.mxml" + sfx, gz)
    P = sx.C("data_in.XUniversalParser")() if by == "universal" else sx.C("data_in.XMxml%sParser" % ("GZIP" if gz else ""))()
    a = read(sx, P, p)
    b = a
    for i, o in enumerate(out):
        n = "x%d.xes" % i + (".gz" if o else "")
        w = write_log(sx, b, n, SER[o])
        b = read(sx, sx.C("data_in.XUniversalParser")() if by == "universal" else sx.C(PARS[o])(), w)
        check_read_log(sx, a, b, "converted")
        h, k = header(a), header(b)
        sx.check(h[1] == k[1], "extensions")
        sx.check(len(h[0]) == len(k[0]) and all(x[1] == y[1] and x[2] == y[2] for x, y in zip(h[0], k[0])), "classifiers")
        for g, l in ((a.get_global_trace_attributes(), b.get_global_trace_attributes()), (a.get_global_event_attributes(), b.get_global_event_attributes())):
            sx.check(len(g) == len(l), "number of globals")
            for x, y in zip(g, l):
                sx.check(type(x) is type(y) and x.get_key() == y.get_key() and x.get_value() == y.get_value(), "globals")


def scenarios(tier):
    lens = (0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 4)
    r = []
    for i, w in enumerate(WHAT + ["big"]):
        for gz in (0, 1):
            for out in ([0], [1], [0, 1]):
                by = ["own", "universal"][(i + gz + len(out)) % 2]
                r.append(("%s-%d-%s" % (w, gz, "".join(map(str, out))), lambda sx, a=(w, gz, out, by): convert(sx, *a, lens)))
    return r
