// mb is moco-backup with its MySQL connections led to the harness.
package main

import (
	"context"
	"fmt"
	"net"
	"os"

	"github.com/cybozu-go/moco/cmd/moco-backup/cmd"
	"github.com/go-sql-driver/mysql"
)

func main() {
	mysql.RegisterDialContext("tcp", func(ctx context.Context, addr string) (net.Conn, error) {
		var d net.Dialer
		c, err := d.DialContext(ctx, "unix", os.Getenv("VERIF_SQL"))
		if err != nil {
			return nil, err
		}
		if _, err := fmt.Fprintf(c, "%s\n", addr); err != nil {
			return nil, err
		}
		ok := make([]byte, 1)
		if _, err := c.Read(ok); err != nil {
			_ = c.Close()
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: fmt.Errorf("%s: connection refused", addr)}
		}
		return c, nil
	})
	cmd.Execute()
}
