package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"

	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	"github.com/rs/zerolog"
)

// Every command reads cases (a JSON object per line) from the file of its first argument, and writes a line per case to that of the second.
// The third argument is a scratch directory that it can use as it likes.
var commands = map[string]func(in *json.Decoder, out *json.Encoder, scratch string) error{
	"doc":      runDoc,
	"packages": runPackages,
	"push":     runPush,
	"azure":    runAzure,
	"life":     runLife,
	"ways":     runWays,
	"cache":    runCache,
	"prog":     runProg,
	"routes":   runRoutes,
	"config":   runConfig,
}

// flush writes what was encoded so far.
var flush func() error

func fail(err error) {
	fmt.Fprintln(os.Stderr, "driver:", err)
	os.Exit(3)
}

func main() {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter = io.Discard
	if len(os.Args) < 5 {
		fail(fmt.Errorf("usage: vdrv command in out scratch"))
	}
	if os.Args[1] == "life-child" {
		lifeChild(os.Args[2], os.Args[3])
	}
	if os.Args[1] == "ways-child" {
		waysChild(os.Args[2], os.Args[3], os.Args[4])
	}
	run, ok := commands[os.Args[1]]
	if !ok {
		fail(fmt.Errorf("unknown command %s", os.Args[1]))
	}
	in, err := os.Open(os.Args[2])
	if err != nil {
		fail(err)
	}
	out, err := os.Create(os.Args[3])
	if err != nil {
		fail(err)
	}
	w := bufio.NewWriter(out)
	flush = w.Flush
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	if err := run(json.NewDecoder(bufio.NewReader(in)), enc, os.Args[4]); err != nil {
		w.Flush()
		fail(err)
	}
	if err := w.Flush(); err != nil {
		fail(err)
	}
}

func quiet() astra.Option { return astra.WithCustomLogger(zerolog.Nop()) }
