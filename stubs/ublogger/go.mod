module gitlab.switch.ch/ub-unibas/go-ublogger

go 1.22.2
