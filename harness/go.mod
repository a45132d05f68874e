module verif.local/harness

go 1.23

require github.com/anishathalye/porcupine v1.3.1
