// Code generated by genalias. DO NOT EDIT.

package zip

import std "archive/zip"

type Compressor = std.Compressor
type Decompressor = std.Decompressor

const Deflate = std.Deflate

var ErrAlgorithm = std.ErrAlgorithm
var ErrChecksum = std.ErrChecksum
var ErrFormat = std.ErrFormat
var ErrInsecurePath = std.ErrInsecurePath

type File = std.File
type FileHeader = std.FileHeader

var FileInfoHeader = std.FileInfoHeader
var NewReader = std.NewReader
var NewWriter = std.NewWriter

type Reader = std.Reader

var RegisterCompressor = std.RegisterCompressor
var RegisterDecompressor = std.RegisterDecompressor

const Store = std.Store

type Writer = std.Writer
