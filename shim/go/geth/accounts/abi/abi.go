// Package abi is an offline stand-in for go-ethereum/accounts/abi: it reads the
// JSON form and derives signatures and selectors.
package abi

import (
	"encoding/json"
	"io"
	"strings"

	"github.com/ethereum/go-ethereum/crypto"
)

type Argument struct {
	Name    string `json:"name"`
	Type    string `json:"type"`
	Indexed bool   `json:"indexed"`
}
type Method struct {
	Name, RawName string
	Sig           string
	ID            []byte
	Inputs        []Argument
}
type Event struct {
	Name, Sig string
	Inputs    []Argument
}
type ABI struct {
	Methods map[string]Method
	Events  map[string]Event
}

func JSON(r io.Reader) (ABI, error) {
	var fields []struct {
		Type   string
		Name   string
		Inputs []Argument
	}
	if err := json.NewDecoder(r).Decode(&fields); err != nil {
		return ABI{}, err
	}
	a := ABI{Methods: map[string]Method{}, Events: map[string]Event{}}
	for _, f := range fields {
		ts := make([]string, len(f.Inputs))
		for i, in := range f.Inputs {
			ts[i] = in.Type
		}
		sig := f.Name + "(" + strings.Join(ts, ",") + ")"
		switch f.Type {
		case "function":
			a.Methods[f.Name] = Method{Name: f.Name, RawName: f.Name, Sig: sig, ID: crypto.Keccak256([]byte(sig))[:4], Inputs: f.Inputs}
		case "event":
			a.Events[f.Name] = Event{Name: f.Name, Sig: sig, Inputs: f.Inputs}
		}
	}
	return a, nil
}
