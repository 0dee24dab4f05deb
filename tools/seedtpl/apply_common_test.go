package apply

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	cliz "github.com/kunitsucom/util.go/exp/cli"
)

// recorder is a database driver that only records what it is asked to execute.
type recorder struct {
	execs  []string
	fail   func(q string, n int) error
	closed int
	opened int
}

type rconn struct{ r *recorder }

func (r *recorder) Open(string) (driver.Conn, error) { r.opened++; return &rconn{r}, nil }

func (c *rconn) Prepare(string) (driver.Stmt, error) { return nil, errors.New("no prepare") }
func (c *rconn) Close() error                        { c.r.closed++; return nil }
func (c *rconn) Begin() (driver.Tx, error)           { return nil, errors.New("no tx") }
func (c *rconn) ExecContext(_ context.Context, q string, _ []driver.NamedValue) (driver.Result, error) {
	c.r.execs = append(c.r.execs, q)
	if c.r.fail != nil {
		if err := c.r.fail(q, len(c.r.execs)); err != nil {
			return nil, err
		}
	}
	return driver.ResultNoRows, nil
}

var recorders = func() map[string]*recorder {
	m := map[string]*recorder{}
	for _, n := range []string{"postgres", "mysql", "spanner"} {
		m[n] = &recorder{}
		sql.Register(n, m[n])
	}
	return m
}()

// runApply runs the apply command on two SQL files, answering the prompt with answer.
func runApply(t *testing.T, dialect, before, after, answer string, approve bool, fail func(q string, n int) error) (execs []string, err error) {
	t.Helper()
	drv := dialect
	if dialect == "cockroachdb" {
		drv = "postgres"
	}
	r := recorders[drv]
	*r = recorder{fail: fail}
	d := t.TempDir()
	b, a := filepath.Join(d, "before.sql"), filepath.Join(d, "after.sql")
	if err := os.WriteFile(b, []byte(before), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(a, []byte(after), 0o600); err != nil {
		t.Fatal(err)
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	_, _ = io.WriteString(pw, answer)
	_ = pw.Close()
	stdin := os.Stdin
	os.Stdin = pr
	defer func() { os.Stdin = stdin; _ = pr.Close() }()
	cmd := cliz.Command{
		Name: "apply",
		Options: []cliz.Option{
			&cliz.StringOption{Name: "lang", Default: cliz.Default("go")},
			&cliz.StringOption{Name: "dialect", Default: cliz.Default("")},
			&cliz.BoolOption{Name: "auto-approve", Default: cliz.Default(false)},
		},
		RunFunc: Command,
	}
	args := []string{"apply", "--dialect", dialect}
	if approve {
		args = append(args, "--auto-approve")
	}
	err = cmd.Run(context.Background(), append(args, b, a))
	return append([]string{}, r.execs...), err
}

func joined(qs []string) string { return strings.Join(qs, "|") }
