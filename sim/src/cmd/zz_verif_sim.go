//go:build go1.22

package main

import (
	"os"

	"github.com/binzume/modelconv/zzverif/drv"
)

func init() {
	if os.Getenv("VERIF_SIM") != "" {
		drv.Main(main)
		os.Exit(0)
	}
}
