// Package ublogger stands in for the logger of the command line tool, which is
// not available offline: the log goes to standard error.
package ublogger

import (
	"crypto/tls"
	"io"
	"os"
	"strings"

	"github.com/rs/zerolog"
)

type Option struct{}

func SetDataset(string) Option                       { return Option{} }
func SetLogStash(string, int, string, string) Option { return Option{} }
func SetTLS(bool) Option                             { return Option{} }
func SetTLSConfig(*tls.Config) Option                { return Option{} }

func CreateUbMultiLoggerTLS(level, file string, _ ...Option) (zerolog.Logger, io.Closer, io.Closer) {
	l, err := zerolog.ParseLevel(strings.ToLower(level))
	if err != nil {
		l = zerolog.ErrorLevel
	}
	return zerolog.New(os.Stderr).Level(l), nil, nil
}
