"""Access to the code under test through its public names."""
import os
import tempfile

df = None
rs = None
hp = None
pd = None


def load(solvers=True):
    global df, rs, hp, pd
    import pandas
    pd = pandas
    import data_formatting.data_formatting as d
    df = d
    if solvers:
        import railway_solvers.railway_solvers as r
        import helpers as h
        rs, hp = r, h
    for m in (df, rs, hp):
        if m is not None and not m.__file__.startswith("/repo/"):
            raise RuntimeError("wrong module " + m.__file__)


def read_frame(world):
    """the schedule text as the table the program reads"""
    import io
    if getattr(world, "csv_path", None):
        return pd.read_csv(world.csv_path, sep=";", engine="python")
    return pd.read_csv(io.StringIO(world.csv_text()), sep=";", engine="python")


def network(world):
    return world.df if getattr(world, "df", None) is not None else world.frame()


def train_dict(world, net=None):
    """public route from file to annotated tables"""
    td = df.timetable_to_train_dict(read_frame(world))
    return df.update_all_timetables(td, network(world) if net is None else net, world.stations)


def via_helpers(world, net=None):
    fd, p = tempfile.mkstemp(suffix=".csv", prefix="vpw")
    try:
        with os.fdopen(fd, "w", encoding="utf8") as f:
            f.write(world.csv_text())
        return hp.build_timetables(p, False, world.stations, network(world) if net is None else net)
    finally:
        os.unlink(p)
