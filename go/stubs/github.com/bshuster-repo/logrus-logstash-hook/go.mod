module github.com/bshuster-repo/logrus-logstash-hook

go 1.20
