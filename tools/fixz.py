p='/repo/znodegen.go'
s=open(p).read()
a='''			return &ZExt_NodeVertex{
				X: c.lsx,
				Y: c.lsy,
			}, &ZExt_NodeVertex{
				X: c.lex,
				Y: c.ley,
			}
'''
b='''			return &ZExt_NodeVertex{
					X: c.lsx,
					Y: c.lsy,
				}, &ZExt_NodeVertex{
					X: c.lex,
					Y: c.ley,
				}
'''
assert a in s
open(p,'w').write(s.replace(a,b,1))
