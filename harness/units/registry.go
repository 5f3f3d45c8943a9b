// Code generated by tools/mkregistry.py; DO NOT EDIT.
package units

import (
	"reflect"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/rfc1813"
)

var registry = map[string]map[string]reflect.Type{
	"rfc1057": {
		"auth_flavor":    reflect.TypeOf((*rfc1057.Auth_flavor)(nil)).Elem(),
		"opaque_auth":    reflect.TypeOf((*rfc1057.Opaque_auth)(nil)).Elem(),
		"msg_type":       reflect.TypeOf((*rfc1057.Msg_type)(nil)).Elem(),
		"reply_stat":     reflect.TypeOf((*rfc1057.Reply_stat)(nil)).Elem(),
		"accept_stat":    reflect.TypeOf((*rfc1057.Accept_stat)(nil)).Elem(),
		"reject_stat":    reflect.TypeOf((*rfc1057.Reject_stat)(nil)).Elem(),
		"auth_stat":      reflect.TypeOf((*rfc1057.Auth_stat)(nil)).Elem(),
		"rpc_msg":        reflect.TypeOf((*rfc1057.Rpc_msg)(nil)).Elem(),
		"call_body":      reflect.TypeOf((*rfc1057.Call_body)(nil)).Elem(),
		"reply_body":     reflect.TypeOf((*rfc1057.Reply_body)(nil)).Elem(),
		"accepted_reply": reflect.TypeOf((*rfc1057.Accepted_reply)(nil)).Elem(),
		"rejected_reply": reflect.TypeOf((*rfc1057.Rejected_reply)(nil)).Elem(),
		"auth_unix":      reflect.TypeOf((*rfc1057.Auth_unix)(nil)).Elem(),
		"mapping":        reflect.TypeOf((*rfc1057.Mapping)(nil)).Elem(),
		"pmaplist":       reflect.TypeOf((*rfc1057.Pmaplist)(nil)).Elem(),
		"pmaplistelem":   reflect.TypeOf((*rfc1057.Pmaplistelem)(nil)).Elem(),
		"call_args":      reflect.TypeOf((*rfc1057.Call_args)(nil)).Elem(),
		"call_result":    reflect.TypeOf((*rfc1057.Call_result)(nil)).Elem(),
		"uint32":         reflect.TypeOf((*rfc1057.Uint32)(nil)).Elem(),
		"xbool":          reflect.TypeOf((*rfc1057.Xbool)(nil)).Elem(),
	},
	"rfc1813": {
		"uint64":              reflect.TypeOf((*rfc1813.Uint64)(nil)).Elem(),
		"uint32":              reflect.TypeOf((*rfc1813.Uint32)(nil)).Elem(),
		"filename3":           reflect.TypeOf((*rfc1813.Filename3)(nil)).Elem(),
		"nfspath3":            reflect.TypeOf((*rfc1813.Nfspath3)(nil)).Elem(),
		"fileid3":             reflect.TypeOf((*rfc1813.Fileid3)(nil)).Elem(),
		"cookie3":             reflect.TypeOf((*rfc1813.Cookie3)(nil)).Elem(),
		"cookieverf3":         reflect.TypeOf((*rfc1813.Cookieverf3)(nil)).Elem(),
		"createverf3":         reflect.TypeOf((*rfc1813.Createverf3)(nil)).Elem(),
		"writeverf3":          reflect.TypeOf((*rfc1813.Writeverf3)(nil)).Elem(),
		"uid3":                reflect.TypeOf((*rfc1813.Uid3)(nil)).Elem(),
		"gid3":                reflect.TypeOf((*rfc1813.Gid3)(nil)).Elem(),
		"size3":               reflect.TypeOf((*rfc1813.Size3)(nil)).Elem(),
		"offset3":             reflect.TypeOf((*rfc1813.Offset3)(nil)).Elem(),
		"mode3":               reflect.TypeOf((*rfc1813.Mode3)(nil)).Elem(),
		"count3":              reflect.TypeOf((*rfc1813.Count3)(nil)).Elem(),
		"nfsstat3":            reflect.TypeOf((*rfc1813.Nfsstat3)(nil)).Elem(),
		"ftype3":              reflect.TypeOf((*rfc1813.Ftype3)(nil)).Elem(),
		"specdata3":           reflect.TypeOf((*rfc1813.Specdata3)(nil)).Elem(),
		"nfs_fh3":             reflect.TypeOf((*rfc1813.Nfs_fh3)(nil)).Elem(),
		"nfstime3":            reflect.TypeOf((*rfc1813.Nfstime3)(nil)).Elem(),
		"fattr3":              reflect.TypeOf((*rfc1813.Fattr3)(nil)).Elem(),
		"post_op_attr":        reflect.TypeOf((*rfc1813.Post_op_attr)(nil)).Elem(),
		"wcc_attr":            reflect.TypeOf((*rfc1813.Wcc_attr)(nil)).Elem(),
		"pre_op_attr":         reflect.TypeOf((*rfc1813.Pre_op_attr)(nil)).Elem(),
		"wcc_data":            reflect.TypeOf((*rfc1813.Wcc_data)(nil)).Elem(),
		"post_op_fh3":         reflect.TypeOf((*rfc1813.Post_op_fh3)(nil)).Elem(),
		"time_how":            reflect.TypeOf((*rfc1813.Time_how)(nil)).Elem(),
		"set_mode3":           reflect.TypeOf((*rfc1813.Set_mode3)(nil)).Elem(),
		"set_uid3":            reflect.TypeOf((*rfc1813.Set_uid3)(nil)).Elem(),
		"set_gid3":            reflect.TypeOf((*rfc1813.Set_gid3)(nil)).Elem(),
		"set_size3":           reflect.TypeOf((*rfc1813.Set_size3)(nil)).Elem(),
		"set_atime":           reflect.TypeOf((*rfc1813.Set_atime)(nil)).Elem(),
		"set_mtime":           reflect.TypeOf((*rfc1813.Set_mtime)(nil)).Elem(),
		"sattr3":              reflect.TypeOf((*rfc1813.Sattr3)(nil)).Elem(),
		"diropargs3":          reflect.TypeOf((*rfc1813.Diropargs3)(nil)).Elem(),
		"GETATTR3args":        reflect.TypeOf((*rfc1813.GETATTR3args)(nil)).Elem(),
		"GETATTR3resok":       reflect.TypeOf((*rfc1813.GETATTR3resok)(nil)).Elem(),
		"GETATTR3res":         reflect.TypeOf((*rfc1813.GETATTR3res)(nil)).Elem(),
		"sattrguard3":         reflect.TypeOf((*rfc1813.Sattrguard3)(nil)).Elem(),
		"SETATTR3args":        reflect.TypeOf((*rfc1813.SETATTR3args)(nil)).Elem(),
		"SETATTR3resok":       reflect.TypeOf((*rfc1813.SETATTR3resok)(nil)).Elem(),
		"SETATTR3resfail":     reflect.TypeOf((*rfc1813.SETATTR3resfail)(nil)).Elem(),
		"SETATTR3res":         reflect.TypeOf((*rfc1813.SETATTR3res)(nil)).Elem(),
		"LOOKUP3args":         reflect.TypeOf((*rfc1813.LOOKUP3args)(nil)).Elem(),
		"LOOKUP3resok":        reflect.TypeOf((*rfc1813.LOOKUP3resok)(nil)).Elem(),
		"LOOKUP3resfail":      reflect.TypeOf((*rfc1813.LOOKUP3resfail)(nil)).Elem(),
		"LOOKUP3res":          reflect.TypeOf((*rfc1813.LOOKUP3res)(nil)).Elem(),
		"ACCESS3args":         reflect.TypeOf((*rfc1813.ACCESS3args)(nil)).Elem(),
		"ACCESS3resok":        reflect.TypeOf((*rfc1813.ACCESS3resok)(nil)).Elem(),
		"ACCESS3resfail":      reflect.TypeOf((*rfc1813.ACCESS3resfail)(nil)).Elem(),
		"ACCESS3res":          reflect.TypeOf((*rfc1813.ACCESS3res)(nil)).Elem(),
		"READLINK3args":       reflect.TypeOf((*rfc1813.READLINK3args)(nil)).Elem(),
		"READLINK3resok":      reflect.TypeOf((*rfc1813.READLINK3resok)(nil)).Elem(),
		"READLINK3resfail":    reflect.TypeOf((*rfc1813.READLINK3resfail)(nil)).Elem(),
		"READLINK3res":        reflect.TypeOf((*rfc1813.READLINK3res)(nil)).Elem(),
		"READ3args":           reflect.TypeOf((*rfc1813.READ3args)(nil)).Elem(),
		"READ3resok":          reflect.TypeOf((*rfc1813.READ3resok)(nil)).Elem(),
		"READ3resfail":        reflect.TypeOf((*rfc1813.READ3resfail)(nil)).Elem(),
		"READ3res":            reflect.TypeOf((*rfc1813.READ3res)(nil)).Elem(),
		"stable_how":          reflect.TypeOf((*rfc1813.Stable_how)(nil)).Elem(),
		"WRITE3args":          reflect.TypeOf((*rfc1813.WRITE3args)(nil)).Elem(),
		"WRITE3resok":         reflect.TypeOf((*rfc1813.WRITE3resok)(nil)).Elem(),
		"WRITE3resfail":       reflect.TypeOf((*rfc1813.WRITE3resfail)(nil)).Elem(),
		"WRITE3res":           reflect.TypeOf((*rfc1813.WRITE3res)(nil)).Elem(),
		"createmode3":         reflect.TypeOf((*rfc1813.Createmode3)(nil)).Elem(),
		"createhow3":          reflect.TypeOf((*rfc1813.Createhow3)(nil)).Elem(),
		"CREATE3args":         reflect.TypeOf((*rfc1813.CREATE3args)(nil)).Elem(),
		"CREATE3resok":        reflect.TypeOf((*rfc1813.CREATE3resok)(nil)).Elem(),
		"CREATE3resfail":      reflect.TypeOf((*rfc1813.CREATE3resfail)(nil)).Elem(),
		"CREATE3res":          reflect.TypeOf((*rfc1813.CREATE3res)(nil)).Elem(),
		"MKDIR3args":          reflect.TypeOf((*rfc1813.MKDIR3args)(nil)).Elem(),
		"MKDIR3resok":         reflect.TypeOf((*rfc1813.MKDIR3resok)(nil)).Elem(),
		"MKDIR3resfail":       reflect.TypeOf((*rfc1813.MKDIR3resfail)(nil)).Elem(),
		"MKDIR3res":           reflect.TypeOf((*rfc1813.MKDIR3res)(nil)).Elem(),
		"symlinkdata3":        reflect.TypeOf((*rfc1813.Symlinkdata3)(nil)).Elem(),
		"SYMLINK3args":        reflect.TypeOf((*rfc1813.SYMLINK3args)(nil)).Elem(),
		"SYMLINK3resok":       reflect.TypeOf((*rfc1813.SYMLINK3resok)(nil)).Elem(),
		"SYMLINK3resfail":     reflect.TypeOf((*rfc1813.SYMLINK3resfail)(nil)).Elem(),
		"SYMLINK3res":         reflect.TypeOf((*rfc1813.SYMLINK3res)(nil)).Elem(),
		"devicedata3":         reflect.TypeOf((*rfc1813.Devicedata3)(nil)).Elem(),
		"mknoddata3":          reflect.TypeOf((*rfc1813.Mknoddata3)(nil)).Elem(),
		"MKNOD3args":          reflect.TypeOf((*rfc1813.MKNOD3args)(nil)).Elem(),
		"MKNOD3resok":         reflect.TypeOf((*rfc1813.MKNOD3resok)(nil)).Elem(),
		"MKNOD3resfail":       reflect.TypeOf((*rfc1813.MKNOD3resfail)(nil)).Elem(),
		"MKNOD3res":           reflect.TypeOf((*rfc1813.MKNOD3res)(nil)).Elem(),
		"REMOVE3args":         reflect.TypeOf((*rfc1813.REMOVE3args)(nil)).Elem(),
		"REMOVE3resok":        reflect.TypeOf((*rfc1813.REMOVE3resok)(nil)).Elem(),
		"REMOVE3resfail":      reflect.TypeOf((*rfc1813.REMOVE3resfail)(nil)).Elem(),
		"REMOVE3res":          reflect.TypeOf((*rfc1813.REMOVE3res)(nil)).Elem(),
		"RMDIR3args":          reflect.TypeOf((*rfc1813.RMDIR3args)(nil)).Elem(),
		"RMDIR3resok":         reflect.TypeOf((*rfc1813.RMDIR3resok)(nil)).Elem(),
		"RMDIR3resfail":       reflect.TypeOf((*rfc1813.RMDIR3resfail)(nil)).Elem(),
		"RMDIR3res":           reflect.TypeOf((*rfc1813.RMDIR3res)(nil)).Elem(),
		"RENAME3args":         reflect.TypeOf((*rfc1813.RENAME3args)(nil)).Elem(),
		"RENAME3resok":        reflect.TypeOf((*rfc1813.RENAME3resok)(nil)).Elem(),
		"RENAME3resfail":      reflect.TypeOf((*rfc1813.RENAME3resfail)(nil)).Elem(),
		"RENAME3res":          reflect.TypeOf((*rfc1813.RENAME3res)(nil)).Elem(),
		"LINK3args":           reflect.TypeOf((*rfc1813.LINK3args)(nil)).Elem(),
		"LINK3resok":          reflect.TypeOf((*rfc1813.LINK3resok)(nil)).Elem(),
		"LINK3resfail":        reflect.TypeOf((*rfc1813.LINK3resfail)(nil)).Elem(),
		"LINK3res":            reflect.TypeOf((*rfc1813.LINK3res)(nil)).Elem(),
		"READDIR3args":        reflect.TypeOf((*rfc1813.READDIR3args)(nil)).Elem(),
		"entry3":              reflect.TypeOf((*rfc1813.Entry3)(nil)).Elem(),
		"dirlist3":            reflect.TypeOf((*rfc1813.Dirlist3)(nil)).Elem(),
		"READDIR3resok":       reflect.TypeOf((*rfc1813.READDIR3resok)(nil)).Elem(),
		"READDIR3resfail":     reflect.TypeOf((*rfc1813.READDIR3resfail)(nil)).Elem(),
		"READDIR3res":         reflect.TypeOf((*rfc1813.READDIR3res)(nil)).Elem(),
		"READDIRPLUS3args":    reflect.TypeOf((*rfc1813.READDIRPLUS3args)(nil)).Elem(),
		"entryplus3":          reflect.TypeOf((*rfc1813.Entryplus3)(nil)).Elem(),
		"dirlistplus3":        reflect.TypeOf((*rfc1813.Dirlistplus3)(nil)).Elem(),
		"READDIRPLUS3resok":   reflect.TypeOf((*rfc1813.READDIRPLUS3resok)(nil)).Elem(),
		"READDIRPLUS3resfail": reflect.TypeOf((*rfc1813.READDIRPLUS3resfail)(nil)).Elem(),
		"READDIRPLUS3res":     reflect.TypeOf((*rfc1813.READDIRPLUS3res)(nil)).Elem(),
		"FSSTAT3args":         reflect.TypeOf((*rfc1813.FSSTAT3args)(nil)).Elem(),
		"FSSTAT3resok":        reflect.TypeOf((*rfc1813.FSSTAT3resok)(nil)).Elem(),
		"FSSTAT3resfail":      reflect.TypeOf((*rfc1813.FSSTAT3resfail)(nil)).Elem(),
		"FSSTAT3res":          reflect.TypeOf((*rfc1813.FSSTAT3res)(nil)).Elem(),
		"FSINFO3args":         reflect.TypeOf((*rfc1813.FSINFO3args)(nil)).Elem(),
		"FSINFO3resok":        reflect.TypeOf((*rfc1813.FSINFO3resok)(nil)).Elem(),
		"FSINFO3resfail":      reflect.TypeOf((*rfc1813.FSINFO3resfail)(nil)).Elem(),
		"FSINFO3res":          reflect.TypeOf((*rfc1813.FSINFO3res)(nil)).Elem(),
		"PATHCONF3args":       reflect.TypeOf((*rfc1813.PATHCONF3args)(nil)).Elem(),
		"PATHCONF3resok":      reflect.TypeOf((*rfc1813.PATHCONF3resok)(nil)).Elem(),
		"PATHCONF3resfail":    reflect.TypeOf((*rfc1813.PATHCONF3resfail)(nil)).Elem(),
		"PATHCONF3res":        reflect.TypeOf((*rfc1813.PATHCONF3res)(nil)).Elem(),
		"COMMIT3args":         reflect.TypeOf((*rfc1813.COMMIT3args)(nil)).Elem(),
		"COMMIT3resok":        reflect.TypeOf((*rfc1813.COMMIT3resok)(nil)).Elem(),
		"COMMIT3resfail":      reflect.TypeOf((*rfc1813.COMMIT3resfail)(nil)).Elem(),
		"COMMIT3res":          reflect.TypeOf((*rfc1813.COMMIT3res)(nil)).Elem(),
		"fhandle3":            reflect.TypeOf((*rfc1813.Fhandle3)(nil)).Elem(),
		"dirpath3":            reflect.TypeOf((*rfc1813.Dirpath3)(nil)).Elem(),
		"name3":               reflect.TypeOf((*rfc1813.Name3)(nil)).Elem(),
		"mountstat3":          reflect.TypeOf((*rfc1813.Mountstat3)(nil)).Elem(),
		"mountres3_ok":        reflect.TypeOf((*rfc1813.Mountres3_ok)(nil)).Elem(),
		"mountres3":           reflect.TypeOf((*rfc1813.Mountres3)(nil)).Elem(),
		"mount3":              reflect.TypeOf((*rfc1813.Mount3)(nil)).Elem(),
		"mountopt3":           reflect.TypeOf((*rfc1813.Mountopt3)(nil)).Elem(),
		"groups3":             reflect.TypeOf((*rfc1813.Groups3)(nil)).Elem(),
		"exports3":            reflect.TypeOf((*rfc1813.Exports3)(nil)).Elem(),
		"exportsopt3":         reflect.TypeOf((*rfc1813.Exportsopt3)(nil)).Elem(),
	},
}
