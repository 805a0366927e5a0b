// Package smithy stands in for the Smithy converter, whose library is not
// available offline. It accepts no file and converts nothing.
package smithy

import (
	"fmt"

	"github.com/boynton/sadl"
)

func IsValidFile(path string) bool { return false }

func Import(paths []string, conf *sadl.Data) (*sadl.Model, error) {
	return nil, fmt.Errorf("smithy is not part of the simulation")
}

func Export(model *sadl.Model, out string, conf *sadl.Data, ast bool) error {
	return fmt.Errorf("smithy is not part of the simulation")
}
