import os
M="pkg/extension/NNNN-gocfl-extension-manager.go"
N="pkg/extension/NNNN-thumbnail_native.go"
PIC='''
package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io/fs"
	"os"
	"path/filepath"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func picKit(cfg string) *kit {
	k := newKit("root")
	k.obj["NNNN-thumbnail"] = cfg
	k.extra = map[string]func(fs.FS) (ocfl.Extension, error){
		"NNNN-thumbnail": func(x fs.FS) (ocfl.Extension, error) { return extension.NewThumbnailFS(x, nil, logger) },
	}
	ck(os.MkdirAll(filepath.Join(k.dir, "../tmp"), 0o755))
	ck(os.Setenv("TMPDIR", filepath.Join(k.dir, "../tmp")))
	return k.init()
}

// noise is a picture which is hard to compress.
func noise(w, h int) string {
	m := image.NewRGBA(image.Rect(0, 0, w, h))
	x := uint32(1)
	for i := 0; i < w; i++ {
		for j := 0; j < h; j++ {
			x = x*1664525 + 1013904223
			m.SetRGBA(i, j, color.RGBA{byte(x >> 24), byte(x >> 16), byte(x >> 8), 255})
		}
	}
	var b bytes.Buffer
	ck(png.Encode(&b, m))
	return b.String()
}

// sizes of the thumbnails by the name of the picture
func (k *kit) sizes(id string) map[string]string {
	o, err := k.open(id)
	ck(err)
	m, err := o.GetMetadata()
	ck(err)
	r := map[string]string{}
	for _, f := range m.Files {
		t, ok := f.Extension["NNNN-thumbnail"].(extension.ThumbnailResult)
		if p, yes := f.Extension["NNNN-thumbnail"].(*extension.ThumbnailResult); yes {
			t, ok = *p, true
		}
		if !ok {
			continue
		}
		fp, err := os.Open(filepath.Join(k.dir, id, "extensions/NNNN-thumbnail", t.Filename))
		ck(err)
		c, _, err := image.DecodeConfig(fp)
		fp.Close()
		ck(err)
		for _, ns := range f.VersionName {
			for _, n := range ns {
				r[n] = fmt.Sprintf("%dx%d", c.Width, c.Height)
			}
		}
	}
	return r
}
'''
seeds=[
dict(id="h01-thumb-large",prop="C35",needs="a picture of more than one megabyte",breaks="large pictures get no thumbnail",
 edits={N:[('image.Decode(reader)','image.Decode(io.LimitReader(reader, 1<<20))')]},
 main=PIC+'''
func main() {
	k := picKit(`"storageType":"extension","storageName":"data","compress":"none","width":100,"height":100,"ext":"png"`)
	ck(k.add("o", files{"small": noise(300, 200), "large": noise(900, 600), "t": "text"}, mode{}))
	if t := k.sizes("o"); len(t) != 2 || t["large"] != "100x66" && t["large"] != "100x67" {
		fail("thumbnails: %v", t)
	}
}
'''),
]
