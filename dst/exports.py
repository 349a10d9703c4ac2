"""Parses the exported HTML and dot texts and compares them with the graph."""

import html.parser
import re


class HtmlReport(html.parser.HTMLParser):
    """Sections of an HTML report: id -> (title, depends on, used by)."""

    def __init__(self, text):
        super().__init__()
        self.sections = {}
        self.twice = []
        self.cur = None
        self.where = None
        self.inh2 = False
        self.ended = False
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        attrs = dict(attrs)
        if tag == "a" and "name" in attrs:
            name = attrs["name"]
            if name in self.sections:
                self.twice.append(name)
            self.cur = self.sections.setdefault(name, ["", [], []])
            self.where = None
        elif tag == "a" and "href" in attrs and self.cur is not None:
            ref = attrs["href"]
            if ref.startswith("#") and self.where is not None:
                self.cur[self.where].append(ref[1:])
        elif tag == "h2":
            self.inh2 = True

    def handle_endtag(self, tag):
        if tag == "h2":
            self.inh2 = False
        elif tag == "html":
            self.ended = True

    def handle_data(self, data):
        if self.inh2 and self.cur is not None:
            self.cur[0] += data
        elif "Depends on" in data:
            self.where = 1
        elif "Used by" in data:
            self.where = 2

    def result(self):
        return {k: (t.strip(), tuple(sorted(a)), tuple(sorted(b)))
                for k, (t, a, b) in self.sections.items()}


Q = r'"((?:[^"\\]|\\.)*)"'


class DotReport:
    def __init__(self, text):
        self.nodes, self.edges, self.clusters = {}, {}, {}
        self.dups = []
        depth = 0
        cluster = None
        for ln in text.split("\n"):
            s = ln.strip()
            if s.startswith("subgraph"):
                cluster = [None, set()]
                depth += s.count("{") - s.count("}")
                continue
            m = re.match(rf'{Q} -> {Q}\s*(\[.*\])?;?$', s)
            n = re.match(rf'{Q}\s*(\[.*\])?;?$', s)
            lab = re.match(rf'label\s*=\s*{Q}', s)
            if cluster is not None:
                if lab:
                    cluster[0] = lab.group(1)
                elif n:
                    cluster[1].add(n.group(1))
                elif s == "}":
                    if cluster[0] in self.clusters:
                        self.dups.append(f"cluster {cluster[0]}")
                    self.clusters[cluster[0]] = cluster[1]
                    cluster = None
            elif m:
                key = (m.group(1), m.group(2))
                if key in self.edges:
                    self.dups.append(key)
                self.edges[key] = m.group(3) or ""
            elif n:
                if n.group(1) in self.nodes:
                    self.dups.append(n.group(1))
                self.nodes[n.group(1)] = n.group(2) or ""
            depth += s.count("{") - s.count("}") if not (m or n) else 0
        self.ended = depth == 0 and text.lstrip().startswith("digraph")


class ExportChecks:
    """Part of the runs that check exported text (op: a command line, or a
    request for a report)."""

    def export_class(self, op):
        return "cli-output" if "argv" in op else "report"

    def export_desc(self, op):
        if "argv" in op:
            return f"{op['argv']} reported success, but its output"
        return f"the exported {op['format']} text"

    def same(self, op, what, got, want):
        if got != want:
            extra, miss = sorted(got - want)[:4], sorted(want - got)[:4]
            self.bad(self.export_class(op), f"{self.export_desc(op)} has "
                     f"{what} too many: {extra}, too few: {miss}")

    def check_html(self, op, text, snap, reach, edges):
        h = HtmlReport(text)
        if not h.ended:
            self.bad(self.export_class(op), f"{self.export_desc(op)} is truncated")
            return
        isdist = {x for x in reach if snap["nodes"][x]["t"] == "PyPIDistribution"}
        self.same(op, "nodes", set(h.sections), reach - isdist)
        if h.twice:
            self.bad(self.export_class(op), f"{self.export_desc(op)}: sections appear twice: "
                     f"{h.twice[:3]}")
        titles = {(k, v[0]) for k, v in h.result().items()}
        self.same(op, "titles", titles, {(x, f"{snap['nodes'][x]['t']} {snap['nodes'][x]['name']}")
                                         for x in reach - isdist})
        self.same(op, "dependencies", {(k, d) for k, v in h.result().items() for d in v[1]},
                  {(a, b) for a, b in edges if a not in isdist})
        self.same(op, "users", {(d, k) for k, v in h.result().items() for d in v[2]},
                  {(a, b) for a, b in edges if b not in isdist})

    def check_dot(self, op, text, snap, reach, edges):
        d = DotReport(text)
        if not d.ended:
            self.bad(self.export_class(op), f"{self.export_desc(op)} is truncated")
            return
        self.same(op, "nodes", set(d.nodes), reach)
        self.same(op, "edges", set(d.edges), edges)
        if d.dups:
            self.bad(self.export_class(op), f"{self.export_desc(op)}: entries appear twice: "
                     f"{d.dups[:3]}")
        want, names = {}, self.dist_names
        for x in reach:
            ds = snap["nodes"][x].get("dist")
            if ds is not None:
                want.setdefault(names.get(ds, ds), set()).add(x)
        self.same(op, "distribution groups",
                  {(k, x) for k, v in d.clusters.items() for x in v},
                  {(k, x) for k, v in want.items() for x in v})

    @property
    def dist_names(self):
        names = {}
        for p, s in self.world.files.items():
            if p.endswith(".dist-info/METADATA"):
                for ln in s.get("text", "").split("\n"):
                    if ln.startswith("Name: "):
                        names[p.rpartition("/")[0]] = ln[6:]
                        break
        return names
