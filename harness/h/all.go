package h

// All lists the harnesses by name, for native runs.
var All = map[string]func(){
	"C01Long":       C01Long,
	"C01Parse":      C01Parse,
	"C02Dig":        C02Dig,
	"C02Index":      C02Index,
	"C03First":      C03First,
	"C04Unique":     C04Unique,
	"C05Hash":       C05Hash,
	"C06Deep":       C06Deep,
	"C06Lookup":     C06Lookup,
	"C07Config":     C07Config,
	"C07Forms":      C07Forms,
	"C07Inside":     C07Inside,
	"C07Lookup":     C07Lookup,
	"C07Text":       C07Text,
	"C08Lookup":     C08Lookup,
	"C08Structure":  C08Structure,
	"C09Settings":   C09Settings,
	"C10Levels":     C10Levels,
	"C10Shape":      C10Shape,
	"C11Globs":      C11Globs,
	"C11Mapped":     C11Mapped,
	"C11Paths":      C11Paths,
	"C11URI":        C11URI,
	"C12Convert":    C12Convert,
	"C12Merge":      C12Merge,
	"C13Fails":      C13Fails,
	"C13Redacted":   C13Redacted,
	"C13Secret":     C13Secret,
	"C14All":        C14All,
	"C14Lookup":     C14Lookup,
	"C15Type":       C15Type,
	"C15Untyped":    C15Untyped,
	"C16Found":      C16Found,
	"C16Render":     C16Render,
	"C16Result":     C16Result,
	"C16Segments":   C16Segments,
	"C17Functions":  C17Functions,
	"C17Graph":      C17Graph,
	"C17Options":    C17Options,
	"C17Scope":      C17Scope,
	"C18Config":     C18Config,
	"C18Functions":  C18Functions,
	"C18Modules":    C18Modules,
	"C18Plugins":    C18Plugins,
	"C18Yaml":       C18Yaml,
	"C19Disturbs":   C19Disturbs,
	"C19Nested":     C19Nested,
	"C20Combine":    C20Combine,
	"C20Literal":    C20Literal,
	"C20Scope":      C20Scope,
	"C20Split":      C20Split,
	"C21Paths":      C21Paths,
	"C21Requests":   C21Requests,
	"C21Together":   C21Together,
	"C22Module":     C22Module,
	"C22Name":       C22Name,
	"C22Nested":     C22Nested,
	"C23Data":       C23Data,
	"C23Mux":        C23Mux,
	"C24Again":      C24Again,
	"C24Session":    C24Session,
	"C24Two":        C24Two,
	"C25Answer":     C25Answer,
	"C25Functions":  C25Functions,
	"C25Request":    C25Request,
	"C26Apart":      C26Apart,
	"C26Content":    C26Content,
	"C26Once":       C26Once,
	"C26Yaml":       C26Yaml,
	"C27All":        C27All,
	"C27Key":        C27Key,
	"C28Config":     C28Config,
	"C28Data":       C28Data,
	"C28Invocation": C28Invocation,
	"C29Data":       C29Data,
	"C29Found":      C29Found,
	"C29Special":    C29Special,
	"C30Lookup":     C30Lookup,
	"C30Nodes":      C30Nodes,
	"C31Command":    C31Command,
	"C31Pairs":      C31Pairs,
	"C32Convert":    C32Convert,
	"C32Fails":      C32Fails,
	"C33Options":    C33Options,
	"C33Select":     C33Select,
	"C34Kinds":      C34Kinds,
	"C35Cache":      C35Cache,
	"C35Context":    C35Context,
	"C35Race":       C35Race,
}

var cleanups []func()

// Cleanup undoes what a native run left behind.
func Cleanup() {
	for i := len(cleanups) - 1; i >= 0; i-- {
		cleanups[i]()
	}
	cleanups = nil
}
