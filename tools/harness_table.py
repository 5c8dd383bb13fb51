prop('C01','keys longer than the bounds; key text that is not UTF-8',
  h('C01Parse',{'len':5},{'len':7},['accepted','rejected']),
  h('C01Long',{'pieces':2},{'pieces':4},['accepted','rejected']))
prop('C02','deeper values, more segments',
  h('C02Dig',{'depth':2,'segs':2},{'depth':3,'segs':3},['found','not found']),
  h('C02Index',{'digits':2},{'digits':3},['found','not found']))
prop('C03','more levels and locations',
  h('C03First',{'levels':2,'locs':2},{'levels':3,'locs':2},['found','not found']))
prop('C04','more levels, longer arrays',
  h('C04Unique',{'levels':2},{'levels':3},['found','not found']))
prop('C05','more levels, wider hashes',
  h('C05Hash',{'levels':3,'width':1},{'levels':4,'width':1},['found','not found']))
prop('C06','deeper and wider values, more levels',
  h('C06Deep',{'depth':1,'width':2,'array':2},{'depth':2,'width':2,'array':2},['merged']),
  h('C06Lookup',{'levels':3},{'levels':4},['found','not found']))

prop('C07','longer text, other characters, more expressions in one string, variables that hold expressions in turn (but see C07Config)',
  h('C07Text',{'len':7},{'len':9},['expression','plain','error']),
  h('C07Inside',{'len':3},{'len':5},['expression','error']),
  h('C07Forms',{'pieces':2},{'pieces':3},['expression','plain','error']),
  h('C07Config',{},{},['expression','error']),
  h('C07Lookup',{'pieces':3},{'pieces':5},['found','again','error']))

prop('C08','deeper and wider structures; hashes in which two keys become equal; strict aliases that are not found',
  h('C08Structure',{'depth':1},{'depth':2},['changed','unchanged']),
  h('C08Lookup',{'depth':1},{'depth':2},['second scope']))

prop('C09','more levels, settings of several kinds varied at once, the default_hierarchy section',
  h('C09Settings',{'levels':2,'len':1},{'levels':2,'len':3},['function','data directory','plugin directory','options']))

prop('C10','more levels, several malformed details at once',
  h('C10Levels',{'levels':3,'name':3},{'levels':4,'name':5},['malformed','well-formed']),
  h('C10Shape',{},{},['malformed','well-formed']))

prop('C11','other file names and glob patterns; files that appear or vanish between the expansion and the reading',
  h('C11Paths',{'len':1},{'len':3},['some','none']),
  h('C11Globs',{'all':0},{'all':1},['some','none']),
  h('C11Mapped',{},{},['some','none']),
  h('C11URI',{},{},['asked']))

prop('C12','more levels; other options; options of module data (C22) and of several top providers (C23)',
  h('C12Merge',{'levels':2},{'levels':3},["caller's option","no caller's option"]),
  h('C12Convert',{},{},['converted']))

prop('C13','other explanations than the text; values that data functions explain themselves',
  h('C13Secret',{},{},['found']),
  h('C13Fails',{},{},['error']),
  h('C13Redacted',{},{},['explained']))

prop('C14','more names; other values; options other than merge',
  h('C14Lookup',{'names':2},{'names':3},['found','not found']),
  h('C14All',{'names':2},{'names':3},['some','none']))
prop('C15','types other than the seven; deeper values; type text that the command line parses (C20, C21)',
  h('C15Type',{},{},['of the type','converted','error']),
  h('C15Untyped',{},{},['looked up']))
prop('C16','more levels; module data; the texts of the explanation other than what is found, missing and merged',
  h('C16Result',{'levels':2},{'levels':3},['found','not found','error']),
  h('C16Found',{'levels':2},{'levels':4},['found','not found','error']),
  h('C16Segments',{'segs':2},{'segs':3},['found','not found']),
  h('C16Render',{},{},['rendered']))
prop('C17','more keys and variables, references from several levels, several functions that look up keys',
  h('C17Graph',{'keys':2,'vars':1},{'keys':2,'vars':2},['recursive','not recursive']),
  h('C17Scope',{},{},['recursive','not recursive']),
  h('C17Options',{'chain':6},{'chain':40},['recursive','not recursive']),
  h('C17Functions',{},{},['recursive','not recursive']))
prop('C18','more than two lookups at a time, more preemptions; plugins that answer late or end meanwhile',
  h('C18Config',{},{},['value','error','repaired'],preempt=2,tpreempt=3,races=True,stress=2000),
  h('C18Modules',{},{},['value'],preempt=1,tpreempt=2,races=True,stress=2000),
  h('C18Functions',{},{},['value'],preempt=1,tpreempt=2,races=True,stress=2000),
  h('C18Yaml',{},{},['value'],preempt=2,tpreempt=3,races=True,stress=2000),
  h('C18Plugins',{},{},['value','error'],preempt=-2,tpreempt=-3,races=True,samples=8,stress=20))
prop('C19','other references than one per value, deeper nesting (C17), more levels',
  h('C19Nested',{},{},['found','not found','error']),
  h('C19Disturbs',{},{},['undisturbed','explained']))
prop('C20','longer names and values, other literals, variables read from the standard input, text with line ends',
  h('C20Scope',{},{},['set','unset']),
  h('C20Split',{'len':6},{'len':8},['well-formed','malformed']),
  h('C20Literal',{},{},['parsed']),
  h('C20Combine',{},{},['combined','error']))
prop('C21','keys with slashes (the router of net/http is modelled: the handler of the longest pattern that matches); requests of other kinds; TLS; the command that starts the server; more than two overlapping requests',
  h('C21Requests',{'all':0},{'all':1},['200','404','500']),
  h('C21Paths',{'len':3},{'len':4},['200','404','500','other path']),
  h('C21Together',{},{},['200','500'],preempt=1,tpreempt=2,races=True,stress=3000))
prop('C22','more than two directories of the module path; two spellings of a module in one directory (the order in which a directory is read is not specified); links; lookup options for a prefix in upper case',
  h('C22Module',{},{},['found','not found']),
  h('C22Name',{'len':2},{'len':4},['found','not found']),
  h('C22Nested',{},{},['found']))
prop('C23','more providers; providers that are themselves composed of several; options other than merge',
  h('C23Mux',{'providers':2,'all':0},{'providers':3,'all':1},['found','not found','error']),
  h('C23Data',{},{},['looked up']))
prop('C24','processes that the plugins start themselves; signals that fail other than for a process that is gone; more than two plugins; Windows',
  h('C24Session',{},{},['started','failed','ended'],preempt=-1,samples=12),
  h('C24Two',{},{},['ended'],preempt=-2,tpreempt=-3),
  h('C24Again',{},{},['ended'],preempt=-2))
prop('C25','redirections, other transports; values that JSON does not have; plugins that answer more slowly than the time limits',
  h('C25Request',{},{},['lookup_key','data_dig','data_hash'],preempt=-1),
  h('C25Answer',{},{},['found','not found','error'],preempt=-1,tpreempt=-2),
  h('C25Functions',{},{},['found','not found','error']))
prop('C26','more levels, files that change while they are read; the order in which levels are loaded',
  h('C26Once',{},{},['found','not found','changed']),
  h('C26Content',{},{},['good','bad']),
  h('C26Apart',{'levels':2},{'levels':3},['found']),
  h('C26Yaml',{},{},['looked up']))
prop('C27','longer names and values, other characters; two variables of the same name; changes of the environment meanwhile',
  h('C27Key',{'len':1},{'len':2},['found','not found']),
  h('C27All',{'len':2,'vars':2},{'len':3,'vars':3},['found','name is empty']))
prop('C28','longer histories, more scopes; callers that change what a lookup gave them; plugins',
  h('C28Config',{'steps':2},{'steps':2,'explain':1},['found','not found']),
  h('C28Data',{'steps':2},{'steps':2,'explain':1},['found']),
  h('C28Invocation',{'steps':3},{'steps':4},['looked up']))
prop('C29','longer texts, other characters, deeper values; floats, times and types',
  h('C29Data',{'depth':1,'len':2},{'depth':2,'len':3},['rendered']),
  h('C29Found',{},{},['found','not found','explained']),
  h('C29Special',{'len':2},{'len':3},['rendered','error']))
prop('C30','texts and values other than the shapes of the harnesses; explanations that are rendered while they are made',
  h('C30Lookup',{},{},['explained','error']),
  h('C30Nodes',{'steps':2},{'steps':2},['explained']))
prop('C31','flags in other orders and combinations, the standard input, the exit status of the process, the help texts',
  h('C31Command',{'before':3},{'before':4},['error','nothing','printed']),
  h('C31Pairs',{'before':1},{'before':3},['error','nothing','printed']))
prop('C32','other scalars than those named; keys that are null, collections, or equal as text; anchors, tags and several documents',
  h('C32Convert',{'depth':3,'len':3},{'depth':4,'len':5},['converted']),
  h('C32Fails',{},{},['refused']))
prop('C33','other names of files; an empty HIERA_CONFIGFILE; options that name files by other values than text',
  h('C33Select',{},{},['read','default','empty']),
  h('C33Options',{},{},['refused','accepted']))
prop('C34','more than two levels or two locations; strategies other than first and deep; functions of plugins (C25)',
  h('C34Kinds',{'levels':2,'segs':2,'shapes':4},{'levels':2,'segs':2,'shapes':6},['found','not found']))
prop('C35','longer sequences; more than two sessions; functions in plugins, which have no cache',
  h('C35Cache',{'ops':3},{'ops':4},['cached','not cached']),
  h('C35Race',{'lookups':2},{'lookups':3},['raced'],preempt=2,tpreempt=3,races=True,stress=500),
  h('C35Context',{},{},['explained']))
