package sync
