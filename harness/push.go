package main

import (
	"encoding/json"
	"errors"
	"io"

	"github.com/ls6-events/astra"
)

// PushCase is a sequence of additions, each of any number of responses or components.
type PushCase struct {
	ID    int         `json:"id"`
	Rets  [][]CReturn `json:"rets"`
	Comps [][]CField  `json:"comps"`
}

func canonReturns(rs []astra.ReturnType) []CReturn {
	return canonRoute(astra.Route{ReturnTypes: rs}).Ret
}

func runPush(in *json.Decoder, out *json.Encoder, scratch string) error {
	for {
		var c PushCase
		if err := in.Decode(&c); errors.Is(err, io.EOF) {
			return nil
		} else if err != nil {
			return err
		}
		rets, comps := [][]CReturn{}, [][]CField{}
		var knownRets []astra.ReturnType
		var knownComps []astra.Field
		err := protect(func() error {
			for _, batch := range c.Rets {
				knownRets = astra.AddReturnType(knownRets, uncanonRoute(CRoute{Ret: batch}).ReturnTypes...)
				rets = append(rets, canonReturns(knownRets))
			}
			for _, batch := range c.Comps {
				knownComps = astra.AddComponent(knownComps, uncanonFields(batch)...)
				comps = append(comps, canonFields(knownComps))
			}
			return nil
		})
		if err := out.Encode(M{"id": c.ID, "rets": c.Rets, "comps": c.Comps, "obs": M{"err": errText(err), "rets": rets, "comps": comps}}); err != nil {
			return err
		}
	}
}
