package t_build

import (
	"testing"

	"verif/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }
