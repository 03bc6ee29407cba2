package main

import (
	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

// mustMap makes an attribute map of the library.
func mustMap(keys []string, vals map[string]any) api.AttributeMap {
	m, err := util.NewOrderedMap(keys, vals)
	if err != nil {
		panic(err)
	}
	return m
}

// wrapWriter, if set, stands between the programs and the writers.
var wrapWriter func(api.Writer) api.Writer

func openWriter(kind, path string) (api.Writer, error) {
	k := netcdf.KindCDF
	if kind == "hdf5" {
		k = netcdf.KindHDF5
	}
	w, err := netcdf.OpenWriter(path, k)
	if err == nil && wrapWriter != nil {
		w = wrapWriter(w)
	}
	return w, err
}
