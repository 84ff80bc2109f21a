// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package codes

type Code uint32

const (
	Unset Code = 0
	Error Code = 1
	Ok    Code = 2
)
