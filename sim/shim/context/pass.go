// Code generated by genshim; DO NOT EDIT.

package context

import real "context"

var Background = real.Background
var Canceled = real.Canceled
var DeadlineExceeded = real.DeadlineExceeded
var TODO = real.TODO
var WithDeadlineCause = real.WithDeadlineCause
var WithTimeoutCause = real.WithTimeoutCause
var WithValue = real.WithValue
