package main

import (
	"encoding/json"
	"fmt"
	stdos "os"
	"strings"
)

// Known is one entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`             // the history that fails, as the oracle names it
	What     string `json:"what"`            // in words
	Fixed    string `json:"fixed,omitempty"` // commit; such an entry suppresses nothing
}

var knowns []Known

func loadKF(p string) {
	b, err := stdos.ReadFile(p)
	if err != nil {
		return
	}
	if err := json.Unmarshal(b, &knowns); err != nil {
		fmt.Fprintln(stdos.Stderr, "known findings:", err)
		stdos.Exit(2)
	}
}

func kfListed(key string) bool {
	for _, k := range knowns {
		if k.Key == key && k.Fixed == "" {
			return true
		}
	}
	return false
}

// kfProps are the properties a finding of this class violates.
func kfProps(key string) []string {
	for _, k := range knowns {
		if k.Key == key {
			return []string{k.Property}
		}
	}
	if strings.HasPrefix(key, "retry-") || strings.HasPrefix(key, "db-") {
		return []string{"C15"}
	}
	return []string{"C14"}
}
