package t_econ

import (
	"testing"

	"verif/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }
