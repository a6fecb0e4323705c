module verif/harness

go 1.23.0

require github.com/breml/logstash-config v0.0.0

replace github.com/breml/logstash-config => /repo
