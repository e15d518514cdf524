"""What the real code reads, judged by spec/ReadTrace.tla."""
import json

import adapter
import mysqlsql
from common import tlc, parallel
from planrun import chunks


def observe_all(db):
    return [adapter.observe_table(t) for t in db.tables.values()]


class Judge:
    """collects observations of one universe, judges every distinct one once"""

    def __init__(self, check, universe):
        self.check, self.u = check, universe
        self.tables, self.index = [], {}
        self.cases, self.where = [], {}
        self.uses = []

    def number(self, t):
        key = json.dumps(t, sort_keys=True)
        if key not in self.index:
            self.tables.append(t)
            self.index[key] = len(self.tables)
        return self.index[key]

    def add(self, d, source, opts, seen, again, detail):
        case = {"d": d, "from": source, "opts": opts, "seen": [self.number(t) for t in seen], "again": [self.number(t) for t in again]}
        key = json.dumps(case, sort_keys=True)
        if key not in self.where:
            self.where[key] = len(self.cases)
            self.cases.append(case)
            self.uses.append([])
        self.uses[self.where[key]].append(detail)

    def judge(self, report, per=600):
        """report(case, faults, details of the inputs that led to it)"""
        parts = chunks(list(range(len(self.cases))), per)

        def one(part):
            return tlc("ReadTrace", {"FOCUS": self.u.focus, "SEED": self.u.seed, "SIZE": self.u.size},
                       {"cases.json": [self.cases[i] for i in part], "tables.json": self.tables or [0]}, workers=1)
        for part, r in zip(parts, parallel([lambda p=p: one(p) for p in parts], 3)):
            self.check.add_tlc(r)
            if len(r.records) != len(part):
                raise AssertionError("TLC judged %d of %d cases" % (len(r.records), len(part)))
            for rec in r.records:
                i = part[rec["case"] - 1]
                self.check.traces += len(self.uses[i])
                if rec["faults"]:
                    report(self.cases[i], rec["faults"], self.uses[i])
