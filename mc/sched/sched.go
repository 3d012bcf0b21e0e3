// Package sched is the yield point of the controlled scheduler. The instrumented build calls Point
// before every statement of the code under test; without a scheduler installed it does nothing.
package sched

// Hook is installed by the scheduler: kind 0 is a point between statements, kind 1 is a thread that
// cannot proceed until another one does.
var Hook func(kind int)

// Point is a place where the scheduler may switch threads.
func Point() {
	if Hook != nil {
		Hook(0)
	}
}

// Block tells the scheduler that the running thread waits for another one.
func Block() {
	if Hook != nil {
		Hook(1)
	}
}
