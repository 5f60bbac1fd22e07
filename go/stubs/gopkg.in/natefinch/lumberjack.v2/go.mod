module gopkg.in/natefinch/lumberjack.v2

go 1.20
