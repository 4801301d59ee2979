package libs

import (
	"testing"

	"verif/vh"
)

var props []*vh.Property

func TestVerif(t *testing.T) { vh.Main(t, props) }
