package main

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
)

func output(kind string, args ...string) []byte {
	cmd := exec.Command(bin(kind), args...)
	cmd.Env = childEnv()
	cmd.Dir = "/"
	b, err := cmd.Output()
	if err != nil {
		return nil
	}
	return b
}

func showPlan(kind, profile, seed string) map[string]any {
	return decodePlan(output(kind, "-profile", profile, "-seed", seed, "-showplan"))
}

// rawPlan runs a plan and returns it with its scheduling decisions spelled out.
func rawPlan(kind string, plan map[string]any) []byte {
	b, _ := json.Marshal(plan)
	p := tmpFile(b)
	defer os.Remove(p)
	out := bytes.Split(bytes.TrimSpace(output(kind, "-plan", p, "-decisions")), []byte("\n"))
	var r struct {
		Plan json.RawMessage `json:"plan"`
	}
	if json.Unmarshal(out[len(out)-1], &r) != nil {
		return nil
	}
	return r.Plan
}
