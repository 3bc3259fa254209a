package main

import (
	"fmt"
	"os"
	"strings"

	_ "github.com/trimmer-io/go-xmp/models"
	_ "github.com/trimmer-io/go-xmp/models/digikam"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simxmp run|worker|exec|replay|calib2")
		os.Exit(2)
	}
	a := os.Args[2:]
	switch os.Args[1] {
	case "run":
		os.Exit(runMain(a))
	case "worker":
		workerMain(a)
	case "exec":
		execMain(a)
	case "replay":
		os.Exit(replayMain(a))
	case "tags":
		tagsMain()
	case "listall":
		listAllMain()
	case "calib2":
		calib2Main(a[0], strings.Join(a[1:], ""))
	}
}
