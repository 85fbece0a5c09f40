"""What each check runs: jobs of (package, test, environment, seconds)."""

ALL = "basic switch failover lagfail errant clone wipe purge inter interboot promote restore offline sqlfault apifault restart delay boot outage lifecycle flapfail switchlag errfail errdown empty idle quiet forever promotelag trigswitch trigfail trigboot enumswitch enumfail chaos".split()


def clus(profiles, quick=30, thorough=600, **env):
    env = {k: str(v) for k, v in env.items()}
    env["VERIF_PROFILES"] = ",".join(profiles.split())
    return dict(pkg="clus", test="TestScenarios", quick=quick, thorough=thorough, env=env, moco=True)


def ctl(profiles, quick=35, thorough=600, **env):
    env = {k: str(v) for k, v in env.items()}
    env["VERIF_PROFILES"] = ",".join(profiles.split())
    env.setdefault("GOGC", "400")
    # not UTC, so that a local time taken for UTC shows
    env.setdefault("TZ", "Asia/Tokyo")
    return dict(pkg="ctl", test="TestScenarios", quick=quick, thorough=thorough, env=env)


def bk(profiles, test="TestJobs", quick=20, thorough=600, **env):
    env = {k: str(v) for k, v in env.items()}
    env["VERIF_PROFILES"] = ",".join(profiles.split())
    # not UTC, so that a local time taken for UTC shows
    env.setdefault("TZ", "Asia/Tokyo")
    return dict(pkg="bk", test=test, quick=quick, thorough=thorough, env=env, tool="bk/tool")


EVENTS = dict(pkg="ctl", test="TestEvents", quick=20, thorough=400, env={}, workers=2)

CLUS_RULE = ("one evaluation = one scenario: a cluster of 1-5 simulated mysqld run by the real ClusterManager in virtual time "
             "with client load and a random sequence of faults of the named profiles; non-trivial = the scenario contained at "
             "least one event the property speaks of (counter `%s`); distinct by profile, fault sequence and sequence of cluster states")

CHECKS = {
    "C01": dict(jobs=[clus("failover flapfail switchlag flapfail lagfail flapfail switch chaos sqlfault outage wipe trigfail promotelag restart promote enumfail trigswitch", quick=40)], floor="durability_checks"),
    "C02": dict(jobs=[clus("switch failover chaos restore inter promote apifault restart sqlfault boot quiet trigswitch trigfail enumswitch enumfail")], floor="made_writable"),
    "C03": dict(jobs=[clus("switch switchlag apifault sqlfault restart chaos quiet delay idle errant trigswitch enumswitch")], floor="switchovers"),
    "C04": dict(jobs=[clus("flapfail failover flapfail errfail errdown flapfail forever flapfail lagfail wipe chaos flapfail sqlfault apifault outage trigfail enumfail", quick=40)], floor="failovers"),
    "C05": dict(jobs=[clus("basic offline restore outage interboot failover errant switch wipe boot chaos empty idle trigfail")], floor="stable_rounds"),
    "C06": dict(jobs=[clus("errdown errfail errant errdown wipe errfail errdown chaos", quick=35)], floor="errant_seen"),
    "C07": dict(jobs=[clus("switch failover errant apifault restart chaos clone trigswitch trigfail enumswitch")], floor="role_changes"),
    "C08": dict(jobs=[clus("basic clone inter promote promotelag failover switch boot chaos restart trigboot")], floor="replica_started"),
    "C09": dict(jobs=[clus("clone interboot wipe inter clone")], floor="clone_calls"),
    "C10": dict(jobs=[clus("purge wipe clone purge chaos")], floor="purge_guard_checks"),
    "C11": dict(jobs=[clus(" ".join(ALL), quick=45)], floor="converged"),
    "C12": dict(jobs=[clus("errant errfail errdown outage offline restore interboot failover delay wipe chaos basic empty forever")], floor="stable_rounds"),
    "C13": dict(jobs=[clus("delay delay chaos")], floor="delay_rounds_true"),
    "C14": dict(jobs=[clus("lifecycle restart lifecycle offline")], floor="mgr_stops"),
    "C15": dict(jobs=[dict(clus("chaos lifecycle restart trigswitch trigfail apifault boot", quick=40), race=True)], floor="rounds"),
    "C16": dict(jobs=[clus("switch errant apifault chaos switchlag trigswitch")], floor="kills"),
    "R01": dict(jobs=[ctl("mix edits faults tamper delete stop volume slow backup conf image faults stale", quick=40)], floor="successful_reconciles"),
    "R02": dict(jobs=[ctl("mix delete slow faults tamper adm conf backup stale")], floor="isolation_checks"),
    "R03": dict(jobs=[ctl("faults edits stale mix tamper stale conf delete")], floor="credentials"),
    "R04": dict(jobs=[ctl("delete delete faults delete mix stale")], floor="finalized"),
    "R05": dict(jobs=[ctl("conf mycnf edits mix")], floor="conf_checks"),
    "R06": dict(jobs=[ctl("edits image mix edits faults stale")], floor="sts_checks"),
    "R07": dict(jobs=[ctl("rolling rolling rolling rolling rollbig", quick=35)], floor="steps_that_restart"),
    "R08": dict(jobs=[ctl("volume volume mix stale")], floor="pvc_writes"),
    "R09": dict(jobs=[ctl("edits mix tamper backup")], floor="service_checks"),
    "R10": dict(jobs=[ctl("backup backup mix faults")], floor="backup_checks"),
    "R11": dict(jobs=[ctl("stop stop mix faults")], floor="stop_checks"),
    "R12": dict(jobs=[ctl("adm", quick=15), dict(EVENTS, quick=12)], floor=["creation_refused", "update_refused", "protected_deletions"]),
    "R13": dict(jobs=[dict(EVENTS, quick=25), ctl("rolling", quick=8)], floor=["tampers", "conf_changes", "policy_changes", "cert_renewals", "pod_deletions_told"]),
    "B01": dict(jobs=[bk("mix plain mix restore", quick=25)], floor=["backups_ok", "backups_failed"]),
    "B02": dict(jobs=[bk("mix plain", quick=25)], floor=["binlogs_stored"]),
    "B03": dict(jobs=[bk("restore mix restore", quick=25)], floor=["restores_ok", "pitr_checks"]),
    "B05": dict(jobs=[dict(bk("mix restore", test="TestCLI", quick=14, thorough=600), bins="./bk/mb", mult=3)], floor=["backups_ok", "restores_ok", "cli_misuses", "restores_given_up"]),
    "K01": dict(jobs=[dict(pkg="cli", test="TestPlugin", quick=15, thorough=500, env={}, bins="github.com/cybozu-go/moco/cmd/kubectl-moco", mult=3)],
                floor=["execs", "credentials", "switchovers", "stops", "starts", "refusals"],
                rule="one evaluation = one scenario: a random sequence of kubectl-moco commands against 1-3 random clusters of a simulated API server with faults and concurrent writers; "
                     "non-trivial = it contained an action or a refusal (counters of the floor); distinct by the sequence of commands and results"),
    "P01": dict(jobs=[dict(pkg="cli", test="TestAgent", quick=20, thorough=500, env={}, race=True)],
                floor=["calls_ok", "calls_refused", "server_checks", "client_renewals", "client_broken", "server_renewals", "server_broken", "storms"],
                rule="one evaluation = one scenario: the real agent factory and reloader against 1-3 TLS gRPC servers through 6-15 random renewals, breakages of files, restarts and storms of calls; "
                     "non-trivial = it contained a judged call; distinct by the sequence of actions"),
    "M01": dict(jobs=[dict(pkg="e2e", test="TestE2E", quick=10, thorough=900, env={}, bins="github.com/cybozu-go/moco/cmd/moco-controller", grace=500)],
                floor=["settled", "option_checks", "endpoint_checks", "takeovers", "audited_writes", "audited_sql"],
                rule="one evaluation = one scenario: two real moco-controller processes with random options against a real API server and simulated nodes, mysqld and agents on loopback, "
                     "through a random sequence of crashes, kills, suspensions, edits and tampering under client writes; non-trivial = it settled at least once (counters of the floor); "
                     "distinct by options and steps"),
    "M02": dict(jobs=[ctl("mix faults volume backup delete slow rolling stop", quick=14, thorough=300), clus("switch failover errant clone delay restore boot", quick=10, thorough=200), bk("mix restore", quick=10, thorough=200)],
                floor=["permission_checks", "grants", "job_permission_checks"],
                rule="one evaluation = one scenario of the simulated controllers (ctl), cluster managers (clus) or jobs (bk) with random histories and faults; non-trivial = a request was judged "
                     "(counters of the floor); distinct by profile and history"),
    "B04": dict(jobs=[bk("s3 gcs azure", test="TestBuckets", quick=20)], floor=["puts_ok", "puts_with_source_failure", "lists_paged"]),
}

CTL_RULE = ("one evaluation = one scenario: 1-4 clusters with random valid specs reconciled by the real controllers against the simulated API server "
            "through a random history of edits, faults, crashes, tampering and restarts of the named profiles (or, for adm, 150 admission requests; for "
            "events, one phase against a real API server); non-trivial = it contained what the property speaks of (counter `%s`); distinct by profile and history")
for k, v in CHECKS.items():
    if k[0] == "R":
        v["rule"] = CTL_RULE % (v["floor"] if isinstance(v["floor"], str) else ", ".join(v["floor"]))

BK_RULE = ("one evaluation = one scenario: %s; non-trivial = it contained what the property speaks of (counters `%s`); distinct by profile and history")
for k, v in CHECKS.items():
    if k[0] == "B":
        w = "a random sequence of Put, Get and List through the real adapter against a simulated storage service with faults" if k == "B04" else (
            "a random history of writes, backups, switchovers, purges, lost and damaged objects and faults of simulated instances, backed up and restored by "
            "the real backup managers and operator with stand-ins for the MySQL programs")
        v["rule"] = BK_RULE % (w, ", ".join(v["floor"]))
