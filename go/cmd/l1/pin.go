package main

import (
	"errors"
	"os"

	"github.com/aarondl/bpass/pinentry"
)

func init() {
	kinds["pin"] = func(sc scenario) interface{} {
		for k, v := range sc.Arg["env"].(map[string]interface{}) {
			if v == nil {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, v.(string))
			}
		}
		var out M
		func() {
			defer func() {
				if r := recover(); r != nil {
					out = M{"how": "panic"}
				}
			}()
			pw, err := pinentry.Password(sc.Arg["prompt"].(string))
			switch {
			case err == nil:
				b := []int{}
				for _, x := range []byte(pw) {
					b = append(b, int(x))
				}
				out = M{"how": "ok", "pw": b}
			case errors.Is(err, pinentry.ErrNotFound):
				out = M{"how": "terminal"}
			default:
				out = M{"how": "error"}
			}
			if err != nil && pw != "" {
				out["left"] = pw
			}
		}()
		return out
	}
}
