"""C39 A saved timetable gives the same problem when it is loaded."""
import os
import shutil
import tempfile

from vp import core, pipe, sut, workload

RULE = ("one observation = one derived part of a timetable that was saved and loaded (or one fact about the saved file), compared with the same part of the timetable that was never saved; "
        "distinct by (schedule, part, files saved before)")
NEED = {"judged:part": 400, "judged:saved": 60, "judged:latest": 20, "judged:nothing saved": 20}
JOB_LIMIT = 600


def setup():
    sut.load()
    workload.preload((0, 1, 5))


def jobs(tier, rng):
    n = 24 if tier == "quick" else 600
    return workload.jobs(rng, () if tier == "quick" else (0, 4), gen=n, walk=n // 3, gen_o={"n_tr": 4}, walk_o={"n_tr": 3}, batch=4)


def save(w, how):
    """annotated tables of a schedule, saved or not, and the files that appear"""
    d = tempfile.mkdtemp(prefix="vpcsv")
    try:
        p = os.path.join(d, "schedule.csv")
        with open(p, "w", encoding="utf8") as f:
            f.write(w.csv_text())
        return sut.hp.build_timetables(p, how, w.stations, sut.network(w))
    finally:
        shutil.rmtree(d)


def one(w, mon, rng):
    ws = [w] + [v for v in pipe.alike(w, rng)[1:] if v.label.endswith(("without a train", "other running times", "at another time", "exchanged numbers"))]
    rng.shuffle(ws)
    d = tempfile.mkdtemp(prefix="vpsave")
    old = os.getcwd()
    try:
        os.chdir(d)
        names = None
        for n, v in enumerate(ws[:3]):
            before = {f: os.stat(f).st_mtime_ns for f in os.listdir(d)}
            with mon.sut("building timetables", detail=v.csv_text()[:3000]):
                td = save(v, False)
            now = {f: os.stat(f).st_mtime_ns for f in os.listdir(d)}
            mon.expect("nothing saved", now == before, v.label + ": a file appears though nothing is to be saved", key=(v.label, n), mech="unasked file")
            with mon.sut("building and saving timetables", detail=v.csv_text()[:3000]):
                td2 = save(v, True)
            mon.expect("saved", pipe.norm(td2) == pipe.norm(td) and list(td2) == list(td), v.label + ": saving changes the tables", key=(v.label, n, "same"), mech="changed by saving")
            files = sorted(os.listdir(d))
            mon.expect("saved", len(files) == 1 and names in (None, files), "%s: files after saving: %s, before: %s" % (v.label, files, names), key=(v.label, n, "file"), mech="files")
            if not files:
                raise core.Skip()
            names = files
            # another process, another place
            e = tempfile.mkdtemp(prefix="vpload")
            try:
                f = os.path.join(e, "kept.pkl")
                shutil.copy(os.path.join(d, files[0]), f)
                with mon.sut("loading timetables", detail=v.csv_text()[:3000]):
                    again = sut.hp.load_timetables(f)
                mon.expect("latest", list(again) == list(td), "%s: trains %s loaded, %s saved" % (v.label, list(again), list(td)), key=(v.label, n), mech="trains")
                same = [pipe.norm(again[j]) == pipe.norm(td[j]) for j in td if j in again]
                mon.expect("saved", all(same), v.label + ": the loaded tables differ from the saved ones", key=(v.label, n, "tables"), mech="tables")
                net = sut.network(v)
                a = pipe.parts(td, v.stations, net)
                b = pipe.alone(lambda: pipe.parts(sut.hp.load_timetables(f), v.stations, net))
            finally:
                shutil.rmtree(e)
            if b is None:
                raise core.HarnessGap("a loaded timetable could not be worked on in a process of its own")
            bad = pipe.differ(a, b)
            for k in sorted(set(a) | set(b)):
                mon.expect("part", k not in bad, lambda: "%s: %s of the loaded timetable: %s, of the one never saved: %s" % (v.label, k, core._short(str(b.get(k)), 200), core._short(str(a.get(k)), 200)),
                           key=(v.label, n, k), sample="%s: %s the same after saving and loading" % (v.label, k), mech="loaded:" + k)
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def work(job, mon):
    workload.each(job, mon, one)
