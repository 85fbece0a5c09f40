"""The properties, from which tools/gen.py writes properties.jsonl and MANIFEST.json."""

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, technique=None, level="exploration", note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                      mech=[dict(name=a, where=b) for a, b in mech],
                      state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                      observe=observe or [], technique=technique, level=level, note=note))


CT = ("online trace monitors on the real clustering loop (virtual time, simulated mysqld over the MySQL wire protocol, "
      "simulated Kubernetes API) under injected faults")
CN = ("Held on every scenario explored, not proved. Trusts the simulated mysqld (GTID replication, semi-sync, super_read_only, clone) "
      "and the simulated API server/kubelet; the clustering, dbop, password and metrics code and the MySQL driver are the real ones.")
CW = "The existing tests drive a handful of hand-made sequences with mocked or idle instances; they fix one interleaving of faults, load and controller steps and never compare the data of the instances with what clients were told."

prop("C01", "Acknowledged transactions survive switchovers and failovers",
     "A transaction whose commit was acknowledged to a client by the primary of a cluster with 3 or more instances is never lost: whenever MOCO records a new primary or makes an instance writable, that instance holds (or executes from its relay log before becoming writable) every acknowledged transaction. This holds as long as no more instances lose their data than the semi-synchronous setting tolerates.",
     "schedules crash_points fault_sequences histories", "all interleavings of client commits, replication, crashes, hangs, partitions, lag and controller steps",
     CW, "clustering/operations.go clustering/status.go pkg/dbop/gtid.go pkg/dbop/replication.go",
     [("failover", "clustering/operations.go"), ("switchover", "clustering/operations.go"), ("FindTopRunner", "pkg/dbop/gtid.go"), ("ConfigurePrimary", "pkg/dbop/replication.go")],
     ["commit acknowledgments of simulated clients", "status.currentPrimaryIndex", "SET GLOBAL read_only=0 and RESET REPLICA statements"])
prop("C02", "At most one writable primary, and only when the spec allows one",
     "MOCO makes writable only the instance recorded as the current primary, and only after every reachable, non-errant other instance is super_read_only. It never makes an instance of an intermediate (replicating from outside), restoring or offline cluster writable, and no write is acknowledged by an instance that is not the primary unless the primary holds it too.",
     "schedules crash_points fault_sequences histories", "all sequences of role changes, unreachable old primaries, manager restarts and failed API or SQL calls",
     CW, "clustering/operations.go clustering/process.go clustering/status.go",
     [("configure", "clustering/operations.go"), ("configurePrimary", "clustering/operations.go"), ("configureReplica", "clustering/operations.go")],
     ["super_read_only/read_only of all instances at each controller statement", "client acknowledgments"])
prop("C03", "Switchover happens only on request and loses no one",
     "The primary of a healthy cluster changes only if its Pod is being deleted or carries the demote annotation; when the change is recorded the old primary is super_read_only, its old client connections are closed, and the new primary is a ready replica that has executed everything the old primary had. The demote request is removed only by a completed switchover, and a request is eventually served when a candidate exists.",
     "schedules crash_points fault_sequences histories", "all timings of requests relative to client load, long transactions, replica lag, API conflicts and controller restarts",
     CW, "clustering/operations.go clustering/status.go clustering/process.go",
     [("switchover", "clustering/operations.go"), ("DecideState/needSwitch", "clustering/status.go"), ("removeAnnPreventDelete", "clustering/operations.go")],
     ["status.currentPrimaryIndex changes", "Pod annotations", "KILL statements"])
prop("C04", "Failover only when the primary is really gone, to the best replica",
     "MOCO fails over only if the primary stayed unavailable (or lost its data) through repeated checks and more than half of the replicas are usable; before recording the new primary it stops the IO threads of every reachable replica, and chooses the non-errant replica that has retrieved the most and executed all of it. When these conditions persist the failover does happen.",
     "schedules crash_points fault_sequences histories", "all timings of primary failures, transient errors, lagging replicas and replica failures",
     CW, "clustering/operations.go clustering/status.go pkg/dbop/gtid.go",
     [("failover", "clustering/operations.go"), ("GatherStatus", "clustering/status.go"), ("isFailed", "clustering/status.go"), ("FindTopRunner", "pkg/dbop/gtid.go")],
     ["status.currentPrimaryIndex changes", "STOP REPLICA IO_THREAD statements", "relay logs"])
prop("C05", "No intervention where none is due",
     "MOCO changes nothing (no mutating SQL, label, primary or clone) in a healthy cluster without a request, nor in an offline, restoring or lost cluster; while cloning only the clone is run and in a failed cluster only the failover. An instance that hangs with sessions waiting for semi-sync acknowledgments is left alone, and the clustering loop never edits the spec.",
     "schedules histories configurations", "all states of instances and Pods that persist through a whole round of the clustering loop",
     CW, "clustering/process.go clustering/status.go clustering/operations.go",
     [("do", "clustering/process.go"), ("DecideState", "clustering/status.go")],
     ["every statement and API write between two status collections"])
prop("C06", "Errant replicas are quarantined",
     "A replica that has executed transactions the primary does not have is listed in the status, loses its role label, is not made to replicate, and never becomes the primary, until it is rebuilt. While the primary is unavailable the recorded list stands.",
     "schedules fault_sequences histories", "all moments at which errant transactions appear relative to switchovers, failovers and restarts",
     CW, "clustering/status.go clustering/operations.go clustering/process.go",
     [("GatherStatus", "clustering/status.go"), ("containErrantTransactions", "clustering/status.go"), ("configureReplica", "clustering/operations.go"), ("updateStatus", "clustering/process.go")],
     ["status.errantReplicaList", "Pod role labels", "START REPLICA statements"])
prop("C07", "Role labels follow the roles and no client is left on the wrong role",
     "At most one Pod carries the primary role label, and it is the recorded primary; only non-errant read-only replicas carry the replica label; every Pod of a settled cluster is labelled. When a Pod's role label changes, client connections opened under the old role are closed before it gets the new label.",
     "schedules crash_points fault_sequences histories", "all sequences of role changes, Pod re-creations, conflicts and restarts",
     CW, "clustering/operations.go clustering/process.go",
     [("removeRoleLabel/addRoleLabel", "clustering/operations.go"), ("KillConnections", "pkg/dbop/kill.go")],
     ["Pod labels", "connections of each instance"])
prop("C08", "Replication and semi-sync are configured as documented",
     "The primary of a cluster with N>1 instances acknowledges writes only under semi-synchronous replication that waits for N/2 replicas without a practical timeout, and does not itself replicate. Replicas replicate by GTID auto-position from the recorded primary with the cluster's replication credentials, are super_read_only, and acknowledge semi-synchronously except in an intermediate cluster, whose primary replicates from the configured external source.",
     "schedules configurations histories", "all cluster sizes, versions, scale-outs, promotions and restarts of instances",
     CW, "clustering/operations.go pkg/dbop/replication.go",
     [("configurePrimary/configureReplica/configureIntermediatePrimary", "clustering/operations.go"), ("ConfigureReplica/ConfigurePrimary", "pkg/dbop/replication.go")],
     ["replication configuration and semi-sync variables of the instances", "client acknowledgments"])
prop("C09", "Clones never destroy data and come from the right donor",
     "MOCO asks for a clone only onto an instance that has no data and is read-only; a replica is cloned only from the current primary when that has data, with the donor credentials of the cluster, and the primary only once, from the configured external source. The initial clone is recorded as done only when the data is there.",
     "schedules crash_points fault_sequences histories", "all orders of volume loss, scale-out, clone failures, restarts and primary changes",
     CW, "clustering/operations.go clustering/status.go clustering/process.go",
     [("clone", "clustering/operations.go"), ("configureReplica", "clustering/operations.go"), ("isCloning", "clustering/status.go")],
     ["clone requests to the agents", "status.cloned"])
prop("C10", "Replication is not started across purged binary logs",
     "MOCO does not (re)start replication on a replica that lacks transactions the primary has already purged from its binary logs, so a replica never silently skips data.",
     "schedules histories inputs", "all GTID sets of replica and primary, and all moments of purging",
     CW, "clustering/operations.go pkg/dbop/gtid.go",
     [("configureReplica", "clustering/operations.go"), ("SubtractGTID", "pkg/dbop/gtid.go")],
     ["START REPLICA statements with gtid_purged and gtid_executed of both sides"])
prop("C11", "The cluster converges to Healthy once faults end",
     "After any sequence of survivable faults ends (and errant instances have been rebuilt by the documented procedure), the clustering loop brings the cluster to the Healthy state with every replica caught up, labelled and replicating, without manual help.",
     "schedules crash_points fault_sequences histories", "all finite fault sequences followed by a quiet period",
     CW, "clustering/process.go clustering/operations.go clustering/status.go",
     [("do/Start", "clustering/process.go"), ("configure", "clustering/operations.go")],
     ["state of all instances and Pods at the end of each scenario"])
prop("C12", "Status, conditions and metrics report the true state",
     "When nothing changes through a round, the conditions Initialized, Available and Healthy, their reason, the numbers of synced and errant replicas, the list of errant replicas and the cluster metrics equal what the documentation defines for the actual state of Pods and instances, and the backup metrics equal the latest backup recorded in the status. Updating the status never changes what backup, restore and reconciliation recorded in it.",
     "schedules histories configurations", "all states of a cluster of 1 to 5 instances that persist through a round",
     CW, "clustering/process.go clustering/status.go pkg/metrics/metrics.go",
     [("updateStatus", "clustering/process.go"), ("DecideState", "clustering/status.go")],
     ["MySQLCluster status", "moco_cluster_* metrics"])
prop("C13", "Pod deletion is prevented exactly while replication is delayed",
     "With maxDelaySecondsForPodDeletion set, the primary's Pod carries the prevent-delete annotation after any round in which some replica is delayed by more than the limit, no switchover happens meanwhile, and no Pod keeps the annotation once no replica is delayed.",
     "schedules histories configurations", "all patterns of delay over the replicas and all limits",
     CW, "clustering/status.go clustering/process.go clustering/operations.go",
     [("GatherStatus", "clustering/status.go"), ("addAnnPreventDelete/removeAnnPreventDelete", "clustering/operations.go")],
     ["Pod annotations", "Seconds_Behind_Source of the replicas"])
prop("C14", "Stopping or pausing the management of a cluster is complete",
     "After a cluster is stopped or paused and its process has ended, MOCO sends it no more statements or API writes, leaves no database or agent connection open, removes (stop) or blanks (pause) its metrics, and does not resume on Pod events; a later update resumes it. Stopping the controller waits for all of this.",
     "schedules histories", "all interleavings of stop, pause, update and restart with running rounds",
     CW, "clustering/manager.go clustering/process.go",
     [("Stop/Pause/StopAll/UpdateNoStart", "clustering/manager.go"), ("Start", "clustering/process.go")],
     ["connections, statements, API writes and metrics after the stop"])
prop("C15", "The clustering loop is free of data races and crashes",
     "No schedule of manager calls, client events and faults makes the clustering code race on shared memory, deadlock or panic.",
     "schedules fault_sequences", "all schedules of the goroutines of the manager, processes and status collection",
     "The suite is run without the race detector, and most goroutines are never concurrent with faults in it.",
     "clustering/manager.go clustering/process.go clustering/status.go",
     [("goroutines of GatherStatus, switchover, process.Start", "clustering")],
     ["Go race detector reports, panics, stalls"], technique="Go race detector (happens-before) and crash/stall monitors on the real clustering loop under fault injection",
     note="Races are reported only for schedules that occurred; GOMAXPROCS=2, 8 processes. Trusts the race detector.")
prop("C16", "Only end-user connections are killed",
     "When MOCO closes client connections it spares those of MOCO's own system users, of local sessions and of the server itself, while every other connection is closed.",
     "inputs histories", "all sets of connected users and hosts at the time of a role change",
     CW, "pkg/dbop/kill.go pkg/constants/users.go", [("KillConnections", "pkg/dbop/kill.go")],
     ["KILL statements against the process list"])

RT = ("online and end-state monitors on the real reconcilers and webhooks run against a simulated API server (controller-runtime's fake client with "
      "server-side apply, defaulting, garbage collection) under injected API faults, crashes, conflicting writers and tampering")
RN = ("Held on every scenario explored, not proved. Trusts the simulated API server, StatefulSet controller, cert-manager and kubelet; the reconcilers, "
      "webhooks and pkg/mycnf, pkg/password, pkg/metrics are the real ones.")
RW = "The existing tests reconcile a few fixed specs on a healthy API server; they never stop a reconciliation half-way, let other writers interfere, run many clusters side by side, or compare the outcome with what the spec asks for over random specs and edit histories."

prop("R01", "Every spec is realised, by retries alone, and then left in peace",
     "Whatever valid spec and sequence of edits, API errors, conflicts, lost responses, controller crashes and foreign edits came before, reconciling until it succeeds yields the objects the current spec asks for, the same as for a freshly created cluster; a further reconciliation of an unchanged cluster writes nothing; and status.reconcileInfo.generation names a generation only once it has been reconciled completely.",
     "inputs histories crash_points fault_sequences", "all valid specs, edit histories, and API faults or crashes at every request of a reconciliation",
     RW, "controllers/mysqlcluster_controller.go controllers/mysql_container.go pkg/mycnf/generator.go",
     [("Reconcile/reconcileV1", "controllers/mysqlcluster_controller.go"), ("updateStatus", "controllers/mysqlcluster_controller.go"), ("apply helpers", "controllers/mysqlcluster_controller.go")],
     ["all objects in the API server after each reconciliation", "every API write", "status.reconcileInfo"], technique=RT, note=RN)
prop("R02", "Clusters do not touch each other or anything else",
     "Reconciling, finalizing or rolling one MySQLCluster never creates, changes or deletes an object of another MySQLCluster, a user's object or another operator's object, however the names overlap (prefixes, same name in another namespace, names with dots or dashes), and never tells the clustering manager about another cluster.",
     "inputs histories", "all sets of cluster names, namespaces and foreign objects, and all sequences of edits and deletions",
     RW, "controllers/mysqlcluster_controller.go controllers/pod_watcher.go controllers/partition_controller.go api/v1beta2/statefulset_webhhok.go",
     [("finalizeV1", "controllers/mysqlcluster_controller.go"), ("cleanupOldConfigMaps", "controllers/mysqlcluster_controller.go"), ("reconcileV1FluentBitConfigMap", "controllers/mysqlcluster_controller.go"), ("StatefulSetDefaulter", "api/v1beta2/statefulset_webhhok.go")],
     ["every API write with the object before and after", "calls of the clustering manager"], technique=RT, note=RN)
prop("R03", "Credentials are created once, stay consistent and stay in Secrets",
     "The passwords of a cluster's system users are generated once and never change while the cluster exists, whatever faults, crashes or tampering happen; the users' Secret and the my.cnf Secret always carry exactly those passwords for exactly the documented users; passwords of different clusters differ; and no password appears in any object that is not a Secret.",
     "inputs histories crash_points fault_sequences", "all faults and crashes around the creation of the Secrets, and all edit histories",
     RW, "controllers/mysqlcluster_controller.go pkg/password/password.go",
     [("reconcileControllerSecret/reconcileUserSecret/reconcileMyCnfSecret", "controllers/mysqlcluster_controller.go"), ("NewMySQLPassword/ToSecret/ToMyCnfSecret", "pkg/password/password.go")],
     ["Secrets and all other objects after each reconciliation"], technique=RT, note=RN)
prop("R04", "A deleted cluster is cleaned up completely, and only then let go",
     "When a MySQLCluster is deleted, its clustering is stopped, the objects the garbage collector cannot reach (controller Secret, certificate in the system namespace) are deleted and its metrics removed before the finalizer is removed; a failure in between is retried; nothing is created for a cluster that is being deleted, and its data volumes are not deleted by the controller.",
     "histories crash_points fault_sequences", "all moments of deletion relative to faults, crashes and other reconciliations",
     RW, "controllers/mysqlcluster_controller.go",
     [("Reconcile (deletion branch)", "controllers/mysqlcluster_controller.go"), ("finalizeV1", "controllers/mysqlcluster_controller.go")],
     ["API writes and manager calls in order", "metrics registry"], technique=RT, note=RN)
prop("R05", "my.cnf is what the user and MOCO asked for, and deterministic",
     "The generated my.cnf contains every option the user gave except those MOCO must control, which always have MOCO's values whatever spelling (dashes, underscores, loose prefix) the user used; options that would disable binary logging are dropped; the buffer pool is sized from the memory of the mysqld container unless the user sets it; opaque text is appended; and equal inputs give byte-equal output, so that nothing restarts without a change. The StatefulSet refers to a ConfigMap that exists and has the current content.",
     "inputs histories", "all user configurations, spellings, memory settings and edit histories",
     RW, "pkg/mycnf/generator.go controllers/mysqlcluster_controller.go",
     [("Generate/mergeSection/normalizeConfKey", "pkg/mycnf/generator.go"), ("reconcileV1MyCnf", "controllers/mysqlcluster_controller.go")],
     ["text of my.cnf", "ConfigMaps and the StatefulSet's volumes"], technique=RT, note=RN)
prop("R06", "The Pod template carries both the user's wishes and what MOCO needs",
     "For every valid spec the StatefulSet's Pod template contains the user's containers, volumes, scheduling constraints, labels and annotations unchanged, together with the agent, init, slow-log and exporter containers, probes, ports, mounts and environment MOCO needs with the configured images, overwrites and timeouts; replicas follow spec.replicas and spec.offline; and an update of MOCO alone does not change the slow-log container until the spec is edited.",
     "inputs configurations", "all valid pod templates, overwrites and flags",
     RW, "controllers/mysql_container.go controllers/mysqlcluster_controller.go",
     [("makeV1MySQLDContainer and others", "controllers/mysql_container.go"), ("reconcileV1StatefulSet", "controllers/mysqlcluster_controller.go")],
     ["the StatefulSet after each reconciliation"], technique=RT, note=RN)
prop("R07", "Rolling updates restart one Pod at a time and only when it is safe",
     "A change of the StatefulSet is held back by the partition; the partition is lowered by one at a time, no faster than the configured interval, and only if the spec is reconciled, the StatefulSet controller has seen it, all other Pods are present, ready for a while and, above the partition, updated, and the cluster is healthy unless the Pod to restart is itself not ready. A forced update is not held back, and an undisturbed update always completes for any number of replicas.",
     "schedules histories fault_sequences", "all interleavings of Pod failures, edits, conflicting writes and controller steps",
     RW, "controllers/partition_controller.go api/v1beta2/statefulset_webhhok.go",
     [("Reconcile/isRolloutReady/patchNewPartition", "controllers/partition_controller.go"), ("StatefulSetDefaulter.Default", "api/v1beta2/statefulset_webhhok.go")],
     ["every write of the StatefulSet's partition with the state of Pods and cluster at that moment"], technique=RT, note=RN)
prop("R08", "Volumes are only grown, and nothing else is lost",
     "When a volume size in the spec grows, every PVC of the claim that allows expansion is grown to exactly that size and the StatefulSet is re-created (orphaning its Pods) with it, also if earlier attempts were interrupted; a PVC is never shrunk or deleted; the StatefulSet is deleted only if its volume claim templates must change and never together with its Pods; and only the configured label and annotation keys are copied to PVCs, other metadata stays.",
     "inputs histories crash_points fault_sequences", "all sequences of size, class, label and template edits with faults in between",
     RW, "controllers/pvc.go controllers/mysqlcluster_controller.go",
     [("reconcilePVC/resizePVCs", "controllers/pvc.go"), ("reconcileV1StatefulSet", "controllers/mysqlcluster_controller.go")],
     ["every write and deletion of PVCs and StatefulSets"], technique=RT, note=RN)
prop("R09", "Services and the disruption budget match the cluster",
     "The headless, primary and replica Services select exactly the Pods of their cluster in the right role, expose the MySQL ports and carry the templates' metadata and allowed settings, whatever selector or ports a template tries to set; a PodDisruptionBudget exists exactly for online clusters of 3 or more instances, selects their Pods, and lets a minority of them go, none while a backup Job is running.",
     "inputs histories", "all service templates, edit histories and tampering",
     RW, "controllers/mysqlcluster_controller.go",
     [("reconcileV1Service/reconcileV1Service1", "controllers/mysqlcluster_controller.go"), ("reconcileV1PDB", "controllers/mysqlcluster_controller.go")],
     ["Services and PDB after each reconciliation"], technique=RT, note=RN)
prop("R10", "Backup and restore jobs exist exactly as specified, with least privilege",
     "A cluster has a backup CronJob, Role and RoleBinding exactly when it names a backup policy, following the policy's schedule, bucket and job settings at all times; a restore Job is created exactly once for a cluster to be restored, with the source, point in time and filters of the spec, and never again after it was recorded as done; the Jobs' permissions cover what they need for their own cluster and no other cluster.",
     "inputs histories crash_points", "all policies, restore specs and edit histories",
     RW, "controllers/mysqlcluster_controller.go",
     [("reconcileV1BackupJob", "controllers/mysqlcluster_controller.go"), ("reconcileV1RestoreJob", "controllers/mysqlcluster_controller.go"), ("bucketArgs", "controllers/mysqlcluster_controller.go")],
     ["CronJobs, Jobs, Roles and RoleBindings after each reconciliation"], technique=RT, note=RN)
prop("R11", "Stopping reconciliation or clustering really stops it, and is visible",
     "With the reconciliation-stopped annotation no object of the cluster is changed except its status; with the clustering-stopped annotation the clustering loop is stopped and kept stopped; the conditions ReconciliationActive, ClusteringActive, Available and Healthy and the metrics always agree with that, and removing the annotations resumes work.",
     "histories crash_points fault_sequences", "all sequences of setting and removing the annotations with edits, faults and restarts in between",
     RW, "controllers/mysqlcluster_controller.go",
     [("Reconcile/updateStatus", "controllers/mysqlcluster_controller.go")],
     ["API writes and manager calls", "conditions", "metrics registry"], technique=RT, note=RN)
prop("R12", "Admission accepts exactly the valid objects and edits",
     "A MySQLCluster is admitted if and only if it satisfies the documented constraints (name length, odd replicas, mysqld container, reserved container, port and volume names, mysql-data claim with storage requests, schedules, sizes) and an update does not decrease replicas, change or introduce a replication source, change the restore spec or expand a volume its storage class cannot expand; new clusters get the finalizer and a positive server-id base and nothing else; whatever the user wrote is stored in full; invalid schedules and deletions of backup policies in use are refused; protected Pods cannot be deleted; StatefulSets of others pass unchanged; and no request makes a webhook panic.",
     "inputs", "all objects, old and new",
     RW, "api/v1beta2/mysqlcluster_types.go api/v1beta2/mysqlcluster_webhook.go api/v1beta2/backuppolicy_webhook.go api/v1beta2/backuppolicy_types.go api/v1beta2/statefulset_webhhok.go config/webhook",
     [("validateCreate/validateUpdate", "api/v1beta2/mysqlcluster_types.go"), ("Default", "api/v1beta2/mysqlcluster_webhook.go"), ("ValidateDelete", "api/v1beta2/backuppolicy_webhook.go")],
     ["responses of the webhook handlers", "responses of a real API server with the shipped CRDs, webhooks and policy"],
     technique="reference-predicate monitor on the real webhook handlers under random objects and edits, and on a real API server with the shipped manifests",
     note="Held on every request explored, not proved. The reference predicate restates the documented constraints.")
prop("R13", "Every change that matters reaches the controllers",
     "With the permissions it is shipped with, the running controller notices and acts on every change of a MySQLCluster, of an object it made for it (edited or deleted by others), of the user's ConfigMap and backup policy it refers to, of its certificate, and on the deletion or demotion of its Pods, without being restarted.",
     "histories schedules", "all orders of changes by users and other controllers",
     RW, "controllers/mysqlcluster_controller.go controllers/pod_watcher.go config/rbac/role.yaml",
     [("SetupWithManager", "controllers/mysqlcluster_controller.go"), ("PodWatcher.Reconcile", "controllers/pod_watcher.go")],
     ["objects in a real API server after each change", "calls of the clustering manager"],
     technique="end-state monitors on the real manager, controllers and webhooks running against a real kube-apiserver/etcd with the shipped RBAC",
     note="Held on every sequence explored, not proved. No StatefulSet controller, kubelet or cert-manager runs; their effects are played.")

BT = ("online and end-state monitors on the real backup and restore managers and the real backup operator, with stand-ins for mysqlsh, mysqlbinlog, mysql, tar and zstd on PATH, "
      "simulated mysqld over the MySQL wire protocol, API server and object storage, in virtual time, under injected faults")
BN = ("Held on every scenario explored, not proved. Trusts the stand-ins of the MySQL programs, mysqld, the API server and the storage; "
      "the backup, bkop and dbop code, client-go and the MySQL driver are the real ones.")
BW = "The existing tests use a mock operator that writes a fixed file for a few fixed histories; the real operator is not run, nothing fails half-way, and no history of writes is compared with what a restore gives back."

prop("B01", "A backup is recorded only when it is complete and can be restored",
     "When a backup job succeeds or records a backup in the cluster's status, an object with the complete, undamaged dump of one instance is in the bucket under the key of the recorded time in UTC, and the recorded source, GTID set, binlog file, server UUIDs, sizes and times are those of that dump. If any step fails (dump, tar, zstd, upload, SQL, API) the job fails and the last recorded backup stays as it was. Other status fields are never changed, no object of another backup is overwritten, and the job does not leave its working files behind or hang.",
     "histories crash_points fault_sequences schedules", "all histories of writes, switchovers and earlier backups, and failures of every command, statement, upload and API call",
     BW, "backup/backup.go backup/common.go pkg/bkop",
     [("BackupManager.Backup/backupFull", "backup/backup.go"), ("commandReader", "backup/backup.go"), ("DumpFull", "pkg/bkop/dump.go")],
     ["every object stored", "every status update", "exit of the job"], technique=BT, note=BN)
prop("B02", "Binary logs link each backup to the next without a gap, or a warning says so",
     "Every backup after the first also stores, under the key of the previous backup, all transactions committed between the two dumps, in order, whichever instances were switched, re-initialised or restarted meanwhile, as long as an instance still has them; it is taken from the instance the documentation names (the last source if it is still a replica with the same data, else a replica not re-initialised since, the primary only as a last resort, never one that is not ready). When the transactions cannot be had, the backup succeeds and records a warning instead of staying silent; a backup in which nothing went wrong records none.",
     "histories fault_sequences", "all histories of writes, rotations, purges, switchovers and re-initialisations between backups",
     BW, "backup/backup.go pkg/bkop",
     [("ChoosePod/choosePod", "backup/backup.go"), ("backupBinlog", "backup/backup.go"), ("DumpBinlog/GetBinlogs/SortBinlogs", "pkg/bkop")],
     ["every binlog object stored, compared with the history of commits", "the instance dumped", "status.backup.warnings"], technique=BT, note=BN)
prop("B03", "A restored instance holds exactly the data of the requested point in time",
     "When a restoration succeeds or is recorded as done, the instance holds exactly the transactions of the last complete dump before the requested time (UTC) plus those in its binary logs before that time, each once and in order, with the users of the dump and MOCO's own users intact, limited to the requested schema and users; it is read-only with local_infile off. Without a usable dump the job fails and touches nothing; after any failure the job fails, nothing is recorded as restored and the instance is left read-only.",
     "histories inputs crash_points fault_sequences", "all histories of backups, lost objects, requested times and filters, and failures of every command, statement, download and API call",
     BW, "backup/restore.go pkg/bkop backup/common.go",
     [("RestoreManager.Restore", "backup/restore.go"), ("FindNearestDump", "backup/restore.go"), ("LoadDump/LoadBinlog", "pkg/bkop")],
     ["data, users and variables of the restored instance", "status.restoredTime", "exit of the job"], technique=BT, note=BN)
prop("B04", "Object storage adapters store, list and return exactly what was given",
     "For S3, GCS and Azure alike: Put succeeds only if an object with exactly the bytes of the source is visible under the key; when the source or the upload fails Put fails and no partial object becomes visible, whatever the size, the size hint or the way the source delivers its bytes. List returns every key with the prefix, across pages, and no other; Get returns exactly the stored bytes or an error, never a short read or the data of a missing object.",
     "inputs fault_sequences", "all keys, sizes, size hints, reader behaviours, page sizes and service failures",
     "The existing tests need storage services that are not there in CI and store one small object; uploads that fail half-way, listings of several pages and interrupted downloads are never tried.",
     "pkg/bucket/s3.go pkg/bucket/gcs.go pkg/bucket/azure.go pkg/bucket/interface.go",
     [("s3Bucket.Put/decidePartSize", "pkg/bucket/s3.go"), ("gcsBucket.Put", "pkg/bucket/gcs.go"), ("azureBucket.Put", "pkg/bucket/azure.go")],
     ["objects in a simulated storage service", "results of Put, Get and List"],
     technique="state monitor on the real adapters and vendor SDKs against simulated S3, GCS and Azure services with injected failures, in virtual time",
     note="Held on every sequence explored, not proved. Trusts the simulated storage services; the adapters and vendor SDKs are the real ones.")
prop("B05", "The moco-backup command reports the truth in its exit status",
     "The moco-backup command exits with 0 exactly when the backup or restoration it was asked for was completed and recorded, with the bucket, region, endpoint, CA certificate, backend, work directory, clusters, point in time (UTC, whatever the local time zone), schema and users it was given; wrong or missing arguments, a missing or wrong password, a missing cluster or bucket, or an instance that never becomes usable make it fail without changing the bucket, the cluster or the instance, and it always ends. So a Job of Kubernetes is complete only if the work is.",
     "inputs histories fault_sequences", "all arguments, environments, histories and failures",
     "The command has no tests at all; only the packages behind it are tested, with mocks.",
     "cmd/moco-backup/cmd/root.go cmd/moco-backup/cmd/backup.go cmd/moco-backup/cmd/restore.go",
     [("makeBucket", "cmd/moco-backup/cmd/root.go"), ("restoreCmd/runRestore", "cmd/moco-backup/cmd/restore.go"), ("backupCmd", "cmd/moco-backup/cmd/backup.go")],
     ["exit status", "objects in a simulated S3/GCS/Azure service over loopback", "status of the cluster in a simulated API server", "data of the simulated instances"],
     technique="end-state monitors on the real moco-backup command run as a process against simulated API server, storage services and mysqld, with stand-ins for the MySQL programs and injected faults",
     note="Held on every run explored, not proved. Only the TCP dial of the MySQL driver is replaced (it leads to the simulated mysqld).")
prop("K01", "The kubectl plugin acts on exactly the cluster and Pod it names, or fails",
     "kubectl-moco, for every cluster, namespace, flag and state: mysql runs exactly one command, mysql with the chosen user's option file and the given arguments, in the mysqld container of the named instance (the current primary by default), passes the input and output through and exits with its exit code; credential prints exactly the password, or the option file, of the chosen user and of no other; switchover marks only the Pod of the current primary for demotion, and refuses clusters that are offline or have one instance; stop and start set or clear only the one annotation of the cluster and lose no concurrent change; the completion proposes exactly the clusters of the namespace. It exits with 0 exactly when that was done; for what does not exist or is not allowed it fails and changes nothing.",
     "inputs histories fault_sequences", "all arguments, cluster states, concurrent changes and API failures",
     "The plugin has no tests.",
     "cmd/kubectl-moco/cmd/mysql.go cmd/kubectl-moco/cmd/credential.go cmd/kubectl-moco/cmd/switchover.go cmd/kubectl-moco/cmd/stop.go cmd/kubectl-moco/cmd/start.go cmd/kubectl-moco/cmd/common.go cmd/kubectl-moco/cmd/completion.go",
     [("runMySQLCommand", "cmd/kubectl-moco/cmd/mysql.go"), ("fetchCredential", "cmd/kubectl-moco/cmd/credential.go"), ("switchover", "cmd/kubectl-moco/cmd/switchover.go"), ("stopClustering/startClustering", "cmd/kubectl-moco/cmd/stop.go")],
     ["every request the command makes to a simulated API server", "commands executed in Pods, with input and output", "exit status and output"],
     technique="request and end-state monitors on the real kubectl-moco command run as a process against a simulated API server with injected faults and concurrent writers",
     note="Held on every run explored, not proved. Trusts the simulated API server; the command and client libraries are the real ones.")
prop("P01", "Agents are reached only over mutual TLS with the certificates in effect",
     "The controller's connection to the agent of instance i reaches that instance only, carries the request unchanged, and goes through exactly when the agent presents an unexpired certificate of a CA in the current bundle for the host name of that very Pod; the agent side accepts exactly clients that present an unexpired certificate of a current CA with the common name moco-controller. Renewed certificates and CA bundles are used without a restart and without a failed call; files that are missing, broken or do not fit together leave what was in effect in effect, and are refused at start.",
     "inputs histories schedules", "all certificates, renewals, broken files and concurrent calls",
     "pkg/cert and the agent factory have no tests: the existing tests replace the factory by a mock.",
     "pkg/cert/cert.go clustering/agent.go",
     [("Reloader.check/Run", "pkg/cert/cert.go"), ("getConfigForClient/verifyConnection", "pkg/cert/cert.go"), ("defaultAgentFactory.New", "clustering/agent.go")],
     ["every call received by gRPC servers on loopback, with the certificate presented", "outcome of every call and TLS handshake", "reports of the race detector"],
     technique="call monitors on the real agent factory and certificate reloader against TLS gRPC servers on loopback through random renewals and broken files, built with the race detector",
     note="Held on every history explored, not proved. Certificates are renewed every few milliseconds instead of months.")
prop("M01", "moco-controller keeps clusters running through failures, one leader at a time",
     "Of several moco-controller processes only the holder of the lease ever writes to the Kubernetes API or to a MySQL instance (bar what a suspended process had under way); after the holder is killed, terminated or suspended another takes over within the lease time, and a deposed one ends. Whatever was going on (crash of an instance, switchover, scaling, change of configuration, image, deletion, a stop of clustering) the clusters end up as their specs ask: Healthy and fully available with the reported primary writable and all replicas following, repaired within a few check intervals when replication is broken by hand, untouched while clustering is stopped, removed when deleted, and every acknowledged write kept. Each option takes effect (images, intervals, concurrency, addresses, ids, namespaces), webhooks, probes and metrics are served, SIGTERM ends the process with 0, and wrong options or a missing environment make it fail at once.",
     "histories schedules crash_points fault_sequences", "all options, crash points of the processes and instances, and sequences of user operations",
     "The wiring of the command has no tests: the existing ones build each reconciler by hand, run one process, and never kill or suspend it.",
     "cmd/moco-controller/cmd/run.go cmd/moco-controller/cmd/root.go clustering/manager.go controllers/mysqlcluster_controller.go",
     [("subMain", "cmd/moco-controller/cmd/run.go"), ("rootCmd/init", "cmd/moco-controller/cmd/root.go"), ("ClusterManager", "clustering/manager.go")],
     ["audit log of a real API server with the identity of every writer", "every SQL statement with the process that sent it", "objects, instances, endpoints and metrics", "exit statuses"],
     technique="offline checker over the audit log and SQL log, and state monitors, on real moco-controller processes run against a real API server with simulated nodes, mysqld and agents under kills, suspensions and crashes",
     note="Held on every run explored, not proved. Trusts the simulated kubelets, StatefulSet controller, mysqld and agents; real time, so few scenarios per run.")
prop("M02", "The permissions MOCO ships and grants suffice for all it does",
     "Whatever the state of the clusters, the controllers never ask the API server for anything the role shipped with MOCO (by kustomize and by the Helm chart alike) does not permit: reads, creations, updates, patches, deletions and status updates of every kind of object; and never grant a ServiceAccount what they may not do themselves, which an API server would refuse. Every request of a backup Job or a restore Job is permitted by the Roles bound to the ServiceAccount that the controller made for this Job.",
     "inputs histories fault_sequences", "all paths of the controllers and jobs, rare ones (volume expansion, clone, finalization, events, failures) included",
     "The existing tests run as an administrator of the API server, so that no request is ever refused.",
     "config/rbac/role.yaml charts/moco/templates/generated/generated.yaml controllers clustering backup",
     [("manager-role", "config/rbac/role.yaml"), ("reconcileV1BackupJobRole/reconcileV1RestoreJobRole", "controllers/mysqlcluster_controller.go"), ("ClusterManager", "clustering/manager.go"), ("BackupManager/RestoreManager", "backup/backup.go")],
     ["every API request of the controllers, the clustering manager and the jobs, with verb, resource, subresource and name", "the rules of every Role the controller writes"],
     technique="online monitor of every API request of the real controllers, cluster manager and jobs, judged by the RBAC rules shipped and granted, under random histories and faults",
     note="Held on every run explored, not proved. The RBAC evaluation is the harness's own (wildcards, resource names and subresources included); requests of the libraries (leases, informers, events of the controller) are covered by the real API server of M01 and R13, which enforces the same roles.")
