// Package gin is a stand-in for gin that has the methods of its context, so that the programs that are analysed load quickly.
package gin

// H is a shortcut for a map.
type H map[string]any

// Context is the context of a request.
type Context struct {
	Keys map[string]any
}

// Error is an error of the context.
type Error struct {
	Err error
}

// HandlerFunc is the type of a handler.
type HandlerFunc func(*Context)

// FileHeader stands for the header of a file.
type FileHeader struct {
	Name string
}

func (c *Context) JSON(code int, obj any)                                 {}
func (c *Context) IndentedJSON(code int, obj any)                         {}
func (c *Context) XML(code int, obj any)                                  {}
func (c *Context) YAML(code int, obj any)                                 {}
func (c *Context) ProtoBuf(code int, obj any)                             {}
func (c *Context) Data(code int, contentType string, data []byte)         {}
func (c *Context) String(code int, format string, values ...any)          {}
func (c *Context) Status(code int)                                        {}
func (c *Context) Query(key string) (value string)                        { return "" }
func (c *Context) GetQuery(key string) (string, bool)                     { return "", false }
func (c *Context) DefaultQuery(key, defaultValue string) string           { return "" }
func (c *Context) QueryArray(key string) (values []string)                { return nil }
func (c *Context) GetQueryArray(key string) (values []string, ok bool)    { return nil, false }
func (c *Context) QueryMap(key string) (dicts map[string]string)          { return nil }
func (c *Context) GetQueryMap(key string) (map[string]string, bool)       { return nil, false }
func (c *Context) PostForm(key string) (value string)                     { return "" }
func (c *Context) GetPostForm(key string) (string, bool)                  { return "", false }
func (c *Context) DefaultPostForm(key, defaultValue string) string        { return "" }
func (c *Context) PostFormArray(key string) (values []string)             { return nil }
func (c *Context) GetPostFormArray(key string) (values []string, ok bool) { return nil, false }
func (c *Context) PostFormMap(key string) (dicts map[string]string)       { return nil }
func (c *Context) GetPostFormMap(key string) (map[string]string, bool)    { return nil, false }
func (c *Context) FormFile(name string) (*FileHeader, error)              { return nil, nil }
func (c *Context) Bind(obj any) error                                     { return nil }
func (c *Context) BindJSON(obj any) error                                 { return nil }
func (c *Context) BindXML(obj any) error                                  { return nil }
func (c *Context) BindYAML(obj any) error                                 { return nil }
func (c *Context) BindQuery(obj any) error                                { return nil }
func (c *Context) BindHeader(obj any) error                               { return nil }
func (c *Context) ShouldBind(obj any) error                               { return nil }
func (c *Context) ShouldBindJSON(obj any) error                           { return nil }
func (c *Context) ShouldBindXML(obj any) error                            { return nil }
func (c *Context) ShouldBindYAML(obj any) error                           { return nil }
func (c *Context) ShouldBindQuery(obj any) error                          { return nil }
func (c *Context) ShouldBindHeader(obj any) error                         { return nil }
func (c *Context) Header(key, value string)                               {}
func (c *Context) GetHeader(key string) string                            { return "" }
func (c *Context) AbortWithStatus(code int)                               {}
func (c *Context) AbortWithStatusJSON(code int, jsonObj any)              {}
func (c *Context) AbortWithError(code int, err error) *Error              { return nil }
func (c *Context) Abort()                                                 {}
func (c *Context) Next()                                                  {}
func (c *Context) IsAborted() bool                                        { return false }
func (c *Context) Set(key string, value any)                              {}
func (c *Context) Get(key string) (value any, exists bool)                { return nil, false }
func (c *Context) GetString(key string) (s string)                        { return "" }
func (c *Context) Param(key string) string                                { return "" }
func (c *Context) ClientIP() string                                       { return "" }
func (c *Context) FullPath() string                                       { return "" }
func (c *Context) Copy() *Context                                         { return nil }
func (c *Context) Redirect(code int, location string)                     {}
func (c *Context) Cookie(name string) (string, error)                     { return "", nil }
func (c *Context) ContentType() string                                    { return "" }
