#!/bin/sh
# RUSTC_WRAPPER: instruments the code under test and the harness, and nothing else, for replay/src/sched.rs
case " $* " in
*" --crate-name sherman "*|*" --crate-name harness "*) exec "$@" -Zsanitizer=thread ;;
*) exec "$@" ;;
esac
