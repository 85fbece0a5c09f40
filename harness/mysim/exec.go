package mysim

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// Norm collapses white space outside of string literals.
func Norm(s string) string {
	var b strings.Builder
	inStr := byte(0)
	space := false
	for k := 0; k < len(s); k++ {
		c := s[k]
		if inStr != 0 {
			b.WriteByte(c)
			if c == '\\' && k+1 < len(s) {
				k++
				b.WriteByte(s[k])
				continue
			}
			if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case ' ', '\t', '\n', '\r':
			space = true
			continue
		case '\'', '"':
			inStr = c
		}
		if space && b.Len() > 0 {
			b.WriteByte(' ')
		}
		space = false
		b.WriteByte(c)
	}
	return strings.TrimRight(strings.TrimSpace(b.String()), "; ")
}

func unquote(s string) string {
	s = strings.TrimSpace(s)
	if len(s) >= 2 && (s[0] == '\'' || s[0] == '"') && s[len(s)-1] == s[0] {
		in := s[1 : len(s)-1]
		var b strings.Builder
		for k := 0; k < len(in); k++ {
			if in[k] == '\\' && k+1 < len(in) {
				k++
				switch in[k] {
				case 'n':
					b.WriteByte('\n')
				case 'r':
					b.WriteByte('\r')
				case 't':
					b.WriteByte('\t')
				case '0':
					b.WriteByte(0)
				default:
					b.WriteByte(in[k])
				}
				continue
			}
			b.WriteByte(in[k])
		}
		return b.String()
	}
	return s
}

// splitTop splits at commas that are not inside quotes or parentheses.
func splitTop(s string) []string {
	var out []string
	depth := 0
	inStr := byte(0)
	last := 0
	for k := 0; k < len(s); k++ {
		c := s[k]
		if inStr != 0 {
			if c == '\\' {
				k++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '\'', '"':
			inStr = c
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[last:k]))
				last = k + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[last:]))
}

func parseBool(v string) (bool, bool) {
	switch strings.ToUpper(unquote(v)) {
	case "1", "ON", "TRUE":
		return true, true
	case "0", "OFF", "FALSE":
		return false, true
	}
	return false, false
}

// IsMutating tells whether a statement changes the server.
func IsMutating(stmt string) bool {
	u := strings.ToUpper(stmt)
	for _, p := range []string{"SELECT", "SHOW", "\x00PING"} {
		if strings.HasPrefix(u, p) {
			return false
		}
	}
	return true
}

func (w *World) exec(c *Conn, raw string) (*Result, error) {
	i := c.Inst
	stmt := Norm(raw)
	if raw == "\x00PING" {
		stmt = raw
	}
	w.Mu.Lock()
	lat := w.Latency(i, stmt)
	w.Mu.Unlock()
	if !w.sleep(lat) {
		return nil, ErrDrop
	}
	if !w.waitAnswer(c) {
		return nil, ErrDrop
	}
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if c.Dead || !i.Up {
		return nil, ErrDrop
	}
	if w.Fault != nil {
		if err := w.Fault(i, c.User, stmt, "pre"); err != nil {
			w.emit(Event{Kind: "fault", Inst: i, User: c.User, Pid: c.pid, Old: c.gen != w.Gen, Stmt: stmt, Err: err})
			return nil, err
		}
	}
	w.emit(Event{Kind: "sql-pre", Inst: i, User: c.User, Pid: c.pid, Old: c.gen != w.Gen, Stmt: stmt})
	r, err := w.run(c, stmt)
	w.emit(Event{Kind: "sql", Inst: i, User: c.User, Pid: c.pid, Old: c.gen != w.Gen, Stmt: stmt, Err: err})
	if err == nil && w.Fault != nil {
		if err := w.Fault(i, c.User, stmt, "post"); err != nil {
			w.emit(Event{Kind: "fault", Inst: i, User: c.User, Pid: c.pid, Old: c.gen != w.Gen, Stmt: stmt, Err: err})
			return nil, err
		}
	}
	return r, err
}

var (
	reGlobalStatus = regexp.MustCompile(`(?i)^SELECT VARIABLE_VALUE(?: AS \w+)? FROM performance_schema\.global_status WHERE VARIABLE_NAME ?(?:=|LIKE) ?'([^']*)'`)
	reGTIDFn       = regexp.MustCompile(`(?is)^SELECT (GTID_SUBSET|GTID_SUBTRACT|WAIT_FOR_EXECUTED_GTID_SET) ?\((.*)\)$`)
	reStopStart    = regexp.MustCompile(`(?i)^(STOP|START) (REPLICA|SLAVE)( IO_THREAD| SQL_THREAD)?$`)
	reReset        = regexp.MustCompile(`(?i)^RESET (REPLICA|SLAVE)( ALL)?$`)
	reChange       = regexp.MustCompile(`(?is)^CHANGE (MASTER|REPLICATION SOURCE) TO (.*)$`)
	reSet          = regexp.MustCompile(`(?is)^SET (?:GLOBAL |@@GLOBAL\.)(.*)$`)
	reKill         = regexp.MustCompile(`(?i)^KILL (?:CONNECTION )?'?(\d+)'?$`)
	reProc         = regexp.MustCompile(`(?i)^SELECT (.*) FROM information_schema\.PROCESSLIST$`)
	reVersion2     = regexp.MustCompile(`(?i)^SELECT SUBSTRING_INDEX ?\( ?VERSION\(\) ?, ?'\.' ?, ?2 ?\)$`)
)

func one(name string, v any) *Result {
	_, isInt := v.(int64)
	_, isBool := v.(bool)
	return &Result{Cols: []Col{{Name: name, Int: isInt || isBool}}, Rows: [][]any{{v}}}
}

func syntax(stmt string) error {
	return &SQLError{1064, "You have an error in your SQL syntax near '" + stmt + "'"}
}

func (w *World) run(c *Conn, stmt string) (*Result, error) {
	i := c.Inst
	up := strings.ToUpper(stmt)
	is84 := strings.HasPrefix(i.Ver, "8.4")
	switch {
	case stmt == "\x00PING":
		return nil, nil
	case reVersion2.MatchString(stmt):
		f := strings.Split(i.Ver, ".")
		return one("v", f[0]+"."+f[1]), nil
	case up == "SELECT VERSION()":
		return one("VERSION()", i.Ver), nil
	case strings.HasPrefix(up, "SELECT @@"):
		return i.selectVars(stmt[7:])
	case up == "SHOW REPLICAS" || up == "SHOW SLAVE HOSTS" && !is84:
		r := &Result{Cols: []Col{{"Server_Id", true}, {"Host", false}, {"Port", true}, {"Source_Id", true}, {"Replica_UUID", false}}}
		for _, x := range w.Insts {
			if x != i && x.Up && x.IOConn && x.ioSrc == i && x.ioSrcEp == i.Epoch {
				r.Rows = append(r.Rows, []any{x.ServerID, "", 3306, i.ServerID, x.UUID})
			}
		}
		return r, nil
	case up == "SHOW REPLICA STATUS" || up == "SHOW SLAVE STATUS" && !is84:
		return i.replicaStatus(), nil
	case strings.HasPrefix(up, "SELECT STATE FROM PERFORMANCE_SCHEMA.CLONE_STATUS"):
		r := &Result{Cols: []Col{{"state", false}}}
		if i.CloneState != "" {
			r.Rows = append(r.Rows, []any{i.CloneState})
		}
		return r, nil
	case up == "SHOW BINARY LOGS" || up == "SHOW MASTER LOGS" && !is84:
		r := &Result{Cols: []Col{{"Log_name", false}, {"File_size", true}, {"Encrypted", false}}}
		for _, n := range i.BinlogNames {
			r.Rows = append(r.Rows, []any{n, 1000, "No"})
		}
		return r, nil
	case up == "SHOW MASTER STATUS" && !is84 || up == "SHOW BINARY LOG STATUS" && is84:
		r := &Result{Cols: []Col{{"File", false}, {"Position", true}, {"Binlog_Do_DB", false}, {"Binlog_Ignore_DB", false}, {"Executed_Gtid_Set", false}}}
		r.Rows = append(r.Rows, []any{i.BinlogNames[len(i.BinlogNames)-1], 197, "", "", i.Executed.String()})
		return r, nil
	}
	if m := reGlobalStatus.FindStringSubmatch(stmt); m != nil {
		r := &Result{Cols: []Col{{"VARIABLE_VALUE", false}}}
		switch strings.ToLower(m[1]) {
		case "rpl_semi_sync_master_wait_sessions", "rpl_semi_sync_source_wait_sessions":
			r.Rows = append(r.Rows, []any{strconv.Itoa(i.Waiting())})
		}
		return r, nil
	}
	if m := reGTIDFn.FindStringSubmatch(stmt); m != nil {
		return w.gtidFn(c, strings.ToUpper(m[1]), splitTop(m[2]), stmt)
	}
	if m := reProc.FindStringSubmatch(stmt); m != nil {
		r := &Result{}
		cols := splitTop(m[1])
		for _, n := range cols {
			r.Cols = append(r.Cols, Col{Name: n, Int: strings.EqualFold(n, "ID")})
		}
		for _, x := range i.UserConns() {
			if x.User == "" {
				continue
			}
			var row []any
			for _, n := range cols {
				switch strings.ToUpper(n) {
				case "ID":
					row = append(row, int64(x.ID))
				case "USER":
					row = append(row, x.User)
				case "HOST":
					row = append(row, x.Host)
				case "COMMAND":
					row = append(row, "Sleep")
				default:
					row = append(row, nil)
				}
			}
			r.Rows = append(r.Rows, row)
		}
		return r, nil
	}
	if m := reKill.FindStringSubmatch(stmt); m != nil {
		id, _ := strconv.ParseUint(m[1], 10, 64)
		x := i.conns[id]
		if x == nil {
			return nil, &SQLError{1094, fmt.Sprintf("Unknown thread id: %d", id)}
		}
		i.kill(x)
		return nil, nil
	}
	if m := reStopStart.FindStringSubmatch(stmt); m != nil {
		start := strings.EqualFold(m[1], "START")
		what := strings.ToUpper(strings.TrimSpace(m[3]))
		if is84 && strings.EqualFold(m[2], "SLAVE") {
			return nil, syntax(stmt)
		}
		if start && i.Repl == nil {
			return nil, &SQLError{1200, "The server is not configured as replica; fix in config file or with CHANGE REPLICATION SOURCE TO"}
		}
		if what == "" || what == "IO_THREAD" {
			i.IOEnabled = start
			if start {
				i.ioSemi = i.SemiSlave
			}
			i.IOConn = false
		}
		if what == "" || what == "SQL_THREAD" {
			i.SQLRunning = start
		}
		w.Version++
		return nil, nil
	}
	if m := reReset.FindStringSubmatch(stmt); m != nil {
		if i.IOEnabled || i.SQLRunning {
			return nil, &SQLError{3081, "This operation cannot be performed with running replication threads"}
		}
		i.Relay = nil
		i.Retrieved = Set{}
		if strings.TrimSpace(m[2]) != "" {
			i.Repl = nil
		}
		w.Version++
		return nil, nil
	}
	if m := reChange.FindStringSubmatch(stmt); m != nil {
		if is84 && strings.EqualFold(m[1], "MASTER") {
			return nil, syntax(stmt)
		}
		if i.IOEnabled || i.SQLRunning {
			return nil, &SQLError{3021, "This operation cannot be performed with a running replication thread"}
		}
		cfg, err := parseChange(m[2])
		if err != nil {
			return nil, syntax(stmt)
		}
		i.Repl = cfg
		i.Relay = nil
		i.Retrieved = Set{}
		w.Version++
		return nil, nil
	}
	if m := reSet.FindStringSubmatch(stmt); m != nil {
		for _, as := range splitTop(m[1]) {
			if err := w.setGlobal(c, as, stmt); err != nil {
				return nil, err
			}
		}
		return nil, nil
	}
	w.Unknown[stmt]++
	return nil, syntax(stmt)
}

// ParseChange parses the option list of CHANGE REPLICATION SOURCE.
func parseChange(s string) (*ReplCfg, error) {
	cfg := &ReplCfg{Port: 3306}
	for _, kv := range splitTop(s) {
		k, v, ok := strings.Cut(kv, "=")
		if !ok {
			return nil, errors.New("bad option")
		}
		k = strings.ToUpper(strings.TrimSpace(k))
		k = strings.TrimPrefix(strings.TrimPrefix(k, "MASTER_"), "SOURCE_")
		v = unquote(v)
		switch k {
		case "HOST":
			cfg.Host = v
		case "PORT":
			cfg.Port, _ = strconv.Atoi(v)
		case "USER":
			cfg.User = v
		case "PASSWORD":
			cfg.Password = v
		case "AUTO_POSITION":
			cfg.Auto = v == "1"
		}
	}
	return cfg, nil
}

func (i *Inst) kill(x *Conn) {
	i.W.emit(Event{Kind: "kill", Inst: i, User: x.User, Extra: x.Host})
	for _, t := range i.waiting {
		if t.conn == x && !t.done {
			// the transaction is committed locally but not acknowledged
			t.done = true
			t.broken = true
			t.err = errors.New("query execution was interrupted")
			i.Executed.Add(t.g)
			i.W.Version++
		}
	}
	var rest []*tx
	for _, t := range i.waiting {
		if !t.done {
			rest = append(rest, t)
		}
	}
	i.waiting = rest
	x.drop()
	if x.wire != nil {
		_ = x.wire.Close()
	}
}

// blockers counts what makes SET GLOBAL super_read_only wait.
func (i *Inst) blockers() int {
	n := i.Waiting()
	for _, c := range i.conns {
		if c.InTx {
			n++
		}
	}
	return n
}

func (w *World) setGlobal(c *Conn, as, stmt string) error {
	i := c.Inst
	k, v, ok := strings.Cut(as, "=")
	if !ok {
		return syntax(stmt)
	}
	k = strings.ToLower(strings.TrimSpace(k))
	k = strings.TrimPrefix(strings.TrimPrefix(k, "global "), "@@global.")
	k = strings.TrimSuffix(strings.TrimSpace(k), ":")
	k = strings.ReplaceAll(strings.ReplaceAll(k, "_source_", "_master_"), "_replica_", "_slave_")
	v = unquote(v)
	b, isB := parseBool(v)
	n, nerr := strconv.ParseInt(v, 10, 64)
	bad := &SQLError{1231, "Variable '" + k + "' can't be set to the value of '" + v + "'"}
	switch k {
	case "super_read_only", "read_only":
		if !isB {
			return bad
		}
		if b && !i.ReadOnly {
			ep := i.Epoch
			i.roWait++
			for i.blockers() > 0 {
				w.Mu.Unlock()
				ok := w.sleep(w.Tick)
				w.Mu.Lock()
				if !ok || c.Dead || i.Epoch != ep || !i.Up {
					if i.Epoch == ep {
						i.roWait--
					}
					return ErrDrop
				}
			}
			i.roWait--
		}
		if b {
			if !i.ReadOnly || !i.SuperReadOnly {
				i.ReadOnlySince = time.Now()
			}
			i.ReadOnly = true
			if k == "super_read_only" {
				i.SuperReadOnly = true
			}
		} else {
			i.SuperReadOnly = false
			if k == "read_only" {
				i.ReadOnly = false
			}
		}
		w.Version++
	case "rpl_semi_sync_master_enabled":
		if !isB {
			return bad
		}
		i.SemiMaster = b
		w.Version++
	case "rpl_semi_sync_slave_enabled":
		if !isB {
			return bad
		}
		i.SemiSlave = b
		w.Version++
	case "rpl_semi_sync_master_wait_for_slave_count":
		if nerr != nil || n < 1 {
			return bad
		}
		i.WaitCount = int(n)
		w.Version++
	case "rpl_semi_sync_master_timeout":
		if nerr != nil {
			return bad
		}
		i.SemiTimeout = n
	case "local_infile":
		i.LocalInfile = b
	default:
		w.Unknown[stmt]++
		return &SQLError{1193, "Unknown system variable '" + k + "'"}
	}
	return nil
}

func (i *Inst) selectVars(list string) (*Result, error) {
	r := &Result{}
	var row []any
	for _, item := range splitTop(list) {
		name := item
		expr := item
		if m := regexp.MustCompile(`(?i)^(\S+) AS (\S+)$`).FindStringSubmatch(item); m != nil {
			expr = m[1]
			name = strings.Trim(m[2], "`'\"")
		}
		v := strings.ToLower(strings.TrimPrefix(strings.TrimSpace(expr), "@@"))
		v = strings.TrimPrefix(v, "global.")
		v = strings.ReplaceAll(strings.ReplaceAll(v, "_source_", "_master_"), "_replica_", "_slave_")
		var val any
		switch v {
		case "server_uuid":
			val = i.UUID
		case "gtid_executed":
			val = i.Executed.String()
		case "gtid_purged":
			val = i.Purged.String()
		case "read_only":
			val = i.ReadOnly
		case "super_read_only":
			val = i.SuperReadOnly
		case "rpl_semi_sync_master_wait_for_slave_count":
			val = int64(i.WaitCount)
		case "rpl_semi_sync_master_enabled":
			val = i.SemiMaster
		case "rpl_semi_sync_slave_enabled":
			val = i.SemiSlave
		case "rpl_semi_sync_master_timeout":
			val = i.SemiTimeout
		case "local_infile":
			val = i.LocalInfile
		case "server_id":
			val = int64(i.ServerID)
		case "version":
			val = i.Ver
		case "max_allowed_packet":
			val = int64(64 << 20)
		default:
			i.W.Unknown["@@"+v]++
			return nil, &SQLError{1193, "Unknown system variable '" + v + "'"}
		}
		_, isS := val.(string)
		r.Cols = append(r.Cols, Col{Name: name, Int: !isS})
		row = append(row, val)
	}
	r.Rows = [][]any{row}
	return r, nil
}

// SecondsBehind is what SHOW REPLICA STATUS reports (nil = NULL) (Mu held).
func (i *Inst) SecondsBehind() any {
	if !i.SQLRunning {
		return nil
	}
	if i.DelayOverride >= 0 {
		return i.DelayOverride
	}
	if len(i.Relay) == 0 {
		if !i.IOEnabled {
			return nil
		}
		return int64(0)
	}
	t, ok := i.W.CommitTime[i.Relay[0]]
	if !ok {
		return int64(0)
	}
	return int64(time.Since(t) / time.Second)
}

// IOState is Replica_IO_Running (Mu held).
func (i *Inst) IOState() string {
	switch {
	case !i.IOEnabled:
		return "No"
	case i.IOConn:
		return "Yes"
	}
	return "Connecting"
}

func yesno(b bool) string {
	if b {
		return "Yes"
	}
	return "No"
}

func (i *Inst) replicaStatus() *Result {
	r := &Result{Cols: []Col{
		{"Replica_IO_State", false}, {"Source_Host", false}, {"Source_User", false}, {"Source_Port", true},
		{"Replica_IO_Running", false}, {"Replica_SQL_Running", false},
		{"Last_IO_Errno", true}, {"Last_IO_Error", false}, {"Last_SQL_Errno", true}, {"Last_SQL_Error", false},
		{"Retrieved_Gtid_Set", false}, {"Executed_Gtid_Set", false}, {"Seconds_Behind_Source", true},
		{"Source_UUID", false}, {"Auto_Position", false}, {"Source_Server_Id", true},
	}}
	if i.Repl == nil {
		return r
	}
	srcUUID, srcID := "", 0
	if i.ioSrc != nil {
		srcUUID, srcID = i.ioSrc.UUID, i.ioSrc.ServerID
	}
	auto := "0"
	if i.Repl.Auto {
		auto = "1"
	}
	r.Rows = append(r.Rows, []any{
		"", i.Repl.Host, i.Repl.User, i.Repl.Port,
		i.IOState(), yesno(i.SQLRunning),
		i.IOErrno, i.IOErr, 0, "",
		i.Retrieved.String(), i.Executed.String(), i.SecondsBehind(),
		srcUUID, auto, srcID,
	})
	return r
}

func (w *World) gtidFn(c *Conn, fn string, args []string, stmt string) (*Result, error) {
	i := c.Inst
	if fn == "WAIT_FOR_EXECUTED_GTID_SET" {
		if len(args) < 1 || len(args) > 2 {
			return nil, syntax(stmt)
		}
		set, err := ParseSet(unquote(args[0]))
		if err != nil {
			return nil, &SQLError{1772, err.Error()}
		}
		var limit time.Duration
		if len(args) == 2 {
			f, err := strconv.ParseFloat(unquote(args[1]), 64)
			if err != nil {
				return nil, syntax(stmt)
			}
			limit = time.Duration(f * float64(time.Second))
		}
		t0 := time.Now()
		for {
			if set.Subset(i.Executed) {
				return one("w", int64(0)), nil
			}
			if limit > 0 && time.Since(t0) >= limit {
				return one("w", int64(1)), nil
			}
			w.Mu.Unlock()
			ok := w.sleep(w.Tick)
			w.Mu.Lock()
			if !ok || c.Dead || !i.Up || i.Epoch != c.Epoch {
				return nil, ErrDrop
			}
		}
	}
	if len(args) != 2 {
		return nil, syntax(stmt)
	}
	a, err := ParseSet(unquote(args[0]))
	if err != nil {
		return nil, &SQLError{1772, err.Error()}
	}
	b, err := ParseSet(unquote(args[1]))
	if err != nil {
		return nil, &SQLError{1772, err.Error()}
	}
	if fn == "GTID_SUBSET" {
		return one("s", a.Subset(b)), nil
	}
	return one("s", a.Minus(b).String()), nil
}
