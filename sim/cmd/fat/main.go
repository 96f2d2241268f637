// Simulation of the FAT code (C29-C32, C38): boot sector decoding from a simulated
// stream, and the real driver base on a simulated volume.
package main

import (
	"disko-sim/core"
)

func main() {
	real := []string{"file_systems/fat: boot sector and directory entry decoding, FATDriver", "errors, file status types (package disko)"}
	rule := "Each run draws a volume (any geometry of the three FAT versions, chain layout and directory tree), then a history of operations on the real driver, with damage to tables, entries and directories, failures and short reads at any call to the volume, and crashes; every result and every change is compared with what an independent reading of the volume says."
	p := func(id string, pr profile, n int, extra string) *core.Profile {
		return &core.Profile{
			Together: 12,
			Property: id, Run: func(r *core.Run) { play(r, pr) }, Quick: n, Thorough: 40 * n, Real: real,
			Stub:   []string{"the disk and the low-level functions of each FAT version (the project has none yet): table access, root directory, freeing clusters, updating and deleting entries"},
			Rule:   rule + " " + extra,
			Assume: []string{"a change which the volume reports as done is done"},
		}
	}
	core.Main(
		&core.Profile{
			Property: "C29", Run: bootSector, Quick: 400_000, Thorough: 16_000_000, Real: real[:1],
			Stub: []string{"the stream the boot sector is read from"},
			Rule: "Each run draws boot sectors (valid ones of any geometry, damaged and random ones), and streams which give them in pieces, end or fail at any byte; the outcome is compared with an independent decoder.",
		},
		p("C30", profile{read: 12, list: 1, stat: 1, remove: 1, damage: 3, chains: true, faults: 50}, 100_000,
			"Weighted towards reading files, through damaged chains."),
		p("C31", profile{read: 2, list: 9, stat: 8, same: 2, remove: 1, damage: 2, bytes: true, chains: true, faults: 40}, 100_000,
			"Weighted towards path lookup and listing, with damaged directories."),
		p("C32", profile{remove: 12, read: 1, list: 2, stat: 1, damage: 1, chains: true, faults: 60, crash: true}, 100_000,
			"Weighted towards removing files, with crashes."),
		p("C38", profile{meta: 12, refused: 3, times: 4, stat: 3, remove: 1, faults: 40, crash: true}, 120_000,
			"Weighted towards changes of modes and times, and operations FAT doesn't have."),
	)
}

// profile gives the weights of a property's simulation.
type profile struct {
	read, list, stat, same, remove, meta, refused, times, damage int

	chains bool // damage tables and entries
	bytes  bool // put random bytes into directories
	crash  bool
	faults int // percentage of runs with faults
}
