module vibe-lsm

go 1.23
