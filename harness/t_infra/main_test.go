package t_infra

import (
	"testing"

	"verif/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }
