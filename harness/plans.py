"""What each check runs: families of histories (generator, count for quick, count for thorough,
arguments), the conjuncts of the specification that decide the property, and the bounded models."""
import gen

REP = {"bal", "env.set", "env.total", "env.split", "env.target", "env.due", "env.avail", "reg", "reg.dates"}
ENV = {"env.set", "env.total", "env.split", "env.target", "env.due", "env.avail"}
FILES = {"files.other", "files.kept", "files.wrote", "files.nowrite", "files.nomove"}
VERDICT = {"accept", "reject", "silent"}


def F(fn, quick, thorough, **kw):
    return (fn, quick, thorough, kw)


PLANS = {
    "C01": dict(conj={"bal"}, families=[F("crowds", 30, 300, cmds="b"), 
        F("balances", 1500, 16000), F("blanks", 150, 1500), F("register_bal", 150, 1500), F("envelopes", 150, 1500, cmds="b"),
        F("purses", 120, 1200), F("large", 60, 600)], models=["MC_Entries", "MC_Budget"]),
    "C02": dict(conj={"bal", "accept", "reject", "silent", "env.total"}, families=[F("crowds", 15, 150, cmds="be"), 
        F("blanks", 1500, 14000), F("balances", 250, 3000), F("broken", 400, 4000)], models=["MC_Entries"]),
    "C03": dict(conj={"accept", "reject", "silent", "report", "files.nowrite"}, families=[
        F("journals", 1100, 11000), F("broken", 1000, 10000), F("precise", 250, 2500), F("declarations", 250, 2500), F("env_broken", 600, 6000), F("balances", 150, 1500),
        F("large", 60, 600)], models=["MC_Entries"]),
    "C04": dict(conj=REP | {"accept", "report"}, families=[
        F("layouts", 500, 6000), F("balances", 200, 2000), F("envelopes", 80, 800), F("comments", 200, 2000)], models=["MC_Layout"]),
    "C05": dict(conj={"bal", "accept", "reject", "silent", "env.target", "env.total", "imp"}, families=[
        F("notations", 900, 9000), F("balances", 200, 2000), F("notation_grid", 1, 1), F("large", 40, 400)], models=["MC_Amounts"]),
    "C06": dict(conj={"env.set", "env.total", "env.avail"}, families=[F("crowds", 30, 300, cmds="e"), 
        F("envelopes", 800, 8000), F("funding", 120, 1500), F("env_broken", 250, 2500), F("purses", 150, 1500), F("purses", 60, 600, rich=True, prefix="rich")], models=["MC_Budget"]),
    "C07": dict(conj={"env.set", "env.total"}, families=[F("crowds", 20, 200, cmds="e"), 
        F("envelopes", 500, 5000), F("envelopes", 600, 6000, only="linked", prefix="lnk"), F("envelopes", 150, 1500, only="manual", prefix="man")],
        models=["MC_Budget"]),
    "C08": dict(conj={"env.set", "env.split"}, families=[
        F("envelopes", 600, 6000, begun=True), F("envelopes", 500, 5000, begun=True, only="manual", prefix="man"),
        F("splits", 250, 2500)], models=["MC_Budget", "MC_Calendar"]),
    "C09": dict(conj={"env.set", "env.due"}, families=[
        F("due_dates", 160, 1600), F("env_broken", 300, 3000), F("due_slices", 24, 24), F("due_every_day", 0, 60)], models=["MC_Calendar"]),
    "C10": dict(conj={"fill.safe"}, families=[F("crowds", 15, 150, cmds="e"), F("funding", 420, 5000), F("funding", 120, 1500, rich="poor", prefix="poor"),
                                              F("saving_up", 12, 150), F("purses", 120, 1200)], models=["MC_Budget"]),
    "C11": dict(conj={"fill"}, families=[F("crowds", 15, 150, cmds="e"), F("funding", 380, 5000), F("saving_up", 40, 500), F("purses", 100, 1000), F("purses", 50, 500, rich=True, prefix="rich")], models=["MC_Budget"]),
    "C12": dict(conj={"fill.once", "fill.again", "report.again", "fill.only"}, families=[
        F("funding", 350, 4000), F("funding", 150, 1500, rich="rich", prefix="rich"), F("same_day", 250, 3000), F("purses", 100, 1000)], models=["MC_Budget"]),
    "C13": dict(conj=FILES | {"fill.only"}, level="fault_enumeration", families=[
        F("faults", 16, 160), F("funding", 100, 1000), F("imports", 150, 1500, bad=0.3), F("clis", 150, 1500), F("journals", 150, 1500)],
        models=["MC_Store"]),
    "C14": dict(conj={"readback", "imp", "fill", "fill.date", "bal", "env.set", "env.total", "env.split", "env.avail", "reg"},
                families=[F("readback", 420, 5000), F("imports", 150, 1500), F("funding", 60, 600, k=8, exact=False),
                          F("import_costs", 150, 1500), F("import_fine", 150, 1500), F("purses", 30, 300, rich=True, prefix="rich")], models=["MC_Budget"]),
    "C15": dict(conj={"imp", "imp.comment", "accept"}, families=[F("imports", 800, 9000), F("imports", 150, 1500, groups=0, prefix="ig0"),
                                                  F("import_costs", 150, 1500), F("import_fine", 100, 1000), F("import_broken", 300, 4000)], models=["MC_Csv", "MC_Rules"]),
    "C16": dict(conj={"imp", "imp.comment", "accept"}, families=[F("imports", 400, 4000, groups=3, prefix="ig3"), F("rule_groups", 600, 7000), F("import_broken", 200, 2000)],
                models=["MC_Rules"]),
    "C17": dict(conj={"imp.nothing", "imp.reject", "files.kept", "files.other", "silent"}, families=[
        F("imports", 900, 9000, bad=0.85), F("bad_at", 120, 1200), F("import_broken", 500, 6000)]),
    "C18": dict(conj={"reg", "reg.zero", "reg.dates"}, families=[F("crowds", 30, 300, cmds="r"), F("register", 1200, 12000), F("register", 40, 400, big=True, prefix="regb"),
                                                     F("funding", 50, 500, cmds="r"), F("large", 60, 600)], models=["MC_Entries", "MC_Budget"]),
    "C19": dict(conj=REP | {"accept", "reject", "report", "silent", "files.other", "fill", "imp", "readback"}, families=[
        F("includes", 900, 9000), F("include_grid", 60, 600)], models=["MC_Layout"]),
    "C20": dict(conj={"crash"}, families=[F("fuzz", 7000, 60000), F("crafted", 5000, 50000), F("extremes", 400, 4000)]),
    "C21": dict(conj=REP | VERDICT | {"report", "files.nowrite", "files.other", "files.nomove", "fill", "imp"}, families=[
        F("clis", 1500, 12000), F("cli_grid", 1, 1)], models=["MC_Cli"]),
    "C22": dict(conj={"reg.dates", "fill.date", "accept", "reject", "env.due", "readback"}, families=[
        F("formats", 1000, 10000), F("date_texts", 300, 3000)]),
    "C23": dict(conj={"env.set", "env.bar"}, families=[F("bars", 900, 9000), F("envelopes", 150, 1500), F("purses", 60, 600), F("purses", 60, 600, rich=True, prefix="rich")], models=["MC_Bars"]),
    "C24": dict(conj={"bal.order", "env.order", "report.same", "report.again"}, families=[F("crowds", 15, 150), 
        F("orders", 350, 4000), F("balances", 200, 2000), F("envelopes", 150, 1500), F("same_day", 80, 800)], models=["MC_Order"]),
    "C25": dict(conj={"any.order"}, families=[F("shuffles", 700, 8000)], models=["MC_Shuffle"]),
    "C26": dict(conj={"fault.told", "fault.clean", "accept", "reject", "report", "silent", "files.nowrite", "imp.nothing", "imp.reject"} | REP, level="fault_enumeration", families=[
        F("faults", 10, 100), F("read_faults", 40, 400), F("directories", 250, 2500)], models=["MC_Store"]),
    "C27": dict(conj={"files.kept", "files.other", "files.wrote", "accept", "report", "readback", "fill", "imp", "crash"} | REP, families=[
        F("races", 500, 6000)], models=["MC_Race"]),
}
