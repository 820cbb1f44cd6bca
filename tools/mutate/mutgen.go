// mutgen FILE: prints one JSON mutant per line: {file,off,end,new,desc}
package main
import ("encoding/json";"fmt";"go/ast";"go/parser";"go/token";"os";"strconv")
type M struct{File string;Off,End int;New,Desc string;Line int;Func string}
func main(){
 for _,f:=range os.Args[1:]{
  src,_:=os.ReadFile(f); fs:=token.NewFileSet()
  t,err:=parser.ParseFile(fs,f,src,parser.ParseComments); if err!=nil{panic(err)}
  fn:=""
  o:=func(p token.Pos)int{return fs.Position(p).Offset}
  emit:=func(a,b token.Pos,n,d string){
   j,_:=json.Marshal(M{f,o(a),o(b),n,d,fs.Position(a).Line,fn}); fmt.Println(string(j))}
  txt:=func(n ast.Node)string{return string(src[o(n.Pos()):o(n.End())])}
  for _,d:=range t.Decls{
   fd,ok:=d.(*ast.FuncDecl)
   if ok { fn=fd.Name.Name } else { fn="(decl)"; if g:=d.(*ast.GenDecl); g.Tok==token.IMPORT||g.Tok==token.TYPE {continue} }
   ast.Inspect(d,func(n ast.Node)bool{
    switch x:=n.(type){
    case *ast.CallExpr:
     // don't mutate inside error constructors or panics
     if id,ok:=x.Fun.(*ast.Ident);ok{switch id.Name{case "textErr","fmtErr","wrapErr","textPanic","fmtPanic","panic":return false}}
     if se,ok:=x.Fun.(*ast.SelectorExpr);ok && se.Sel.Name=="Sprintf"{return true}
    case *ast.BinaryExpr:
     alts:=map[token.Token][]string{token.LSS:{"<=",">="},token.LEQ:{"<"},token.GTR:{">=","<="},token.GEQ:{">"},token.EQL:{"!="},token.NEQ:{"=="},token.ADD:{"-"},token.SUB:{"+"},token.MUL:{"+"},token.QUO:{"*"},token.LAND:{"||"},token.LOR:{"&&"},token.SHL:{">>"},token.SHR:{"<<"},token.AND:{"|"},token.OR:{"&"},token.XOR:{"|"},token.REM:{"+"}}
     for _,a:=range alts[x.Op]{ emit(x.OpPos,x.OpPos+token.Pos(len(x.Op.String())),a,x.Op.String()+" -> "+a) }
    case *ast.IfStmt:
     if x.Init==nil||true{ emit(x.Cond.Pos(),x.Cond.End(),"false && ("+txt(x.Cond)+")","if false"); emit(x.Cond.Pos(),x.Cond.End(),"true || ("+txt(x.Cond)+")","if true") }
    case *ast.ForStmt:
     if x.Cond!=nil{emit(x.Cond.Pos(),x.Cond.End(),"false && ("+txt(x.Cond)+")","for false")}
    case *ast.ExprStmt: 
     emit(x.Pos(),x.End(),"_ = 0","delete "+txt(x))
    case *ast.IncDecStmt: emit(x.Pos(),x.End(),"_ = "+txt(x.X),"delete "+txt(x))
    case *ast.AssignStmt:
     if x.Tok!=token.DEFINE && len(x.Lhs)==1 { 
      if id,ok:=x.Lhs[0].(*ast.Ident);!(ok&&id.Name=="_"){ emit(x.Pos(),x.End(),"_ = "+txt(x.Rhs[0]),"delete "+txt(x)) } }
    case *ast.BasicLit:
     if x.Kind==token.INT{ if v,e:=strconv.ParseInt(x.Value,0,64);e==nil{ emit(x.Pos(),x.End(),fmt.Sprint(v+1),x.Value+" + 1"); if v>0{emit(x.Pos(),x.End(),fmt.Sprint(v-1),x.Value+" - 1")}}}
    case *ast.ReturnStmt:
     for _,r:=range x.Results{ if txt(r)=="err"{emit(r.Pos(),r.End(),"nil","return nil err")} else if txt(r)=="nil" {} else if txt(r)=="true"{emit(r.Pos(),r.End(),"false","return false")} else if txt(r)=="false"{emit(r.Pos(),r.End(),"true","return true")} else if c,ok:=r.(*ast.CallExpr);ok{ if s,ok:=c.Fun.(*ast.SelectorExpr);ok&&s.Sel.Name=="toErr"{emit(r.Pos(),r.End(),txt(c.Args[0]),"drop toErr")} } }
    case *ast.BranchStmt:
     if x.Label==nil{ if x.Tok==token.BREAK{emit(x.Pos(),x.End(),"continue","break->continue")} else if x.Tok==token.CONTINUE{emit(x.Pos(),x.End(),"break","continue->break")} }
    case *ast.CaseClause:
     if len(x.Body)>0 && len(x.List)>0 { emit(x.Body[0].Pos(),x.Body[len(x.Body)-1].End(),"{}","empty case") }
     if len(x.List)>1 { for i:=range x.List{ a,b:=x.List[i].Pos(),x.List[i].End(); if i+1<len(x.List){b=x.List[i+1].Pos()}else{a=x.List[i-1].End()}; emit(a,b,"","drop case "+txt(x.List[i]))}}
    case *ast.SelectorExpr:
     if txt(x)=="io.SeekStart"{emit(x.Pos(),x.End(),"io.SeekCurrent","SeekStart->Current")}
     if txt(x)=="io.SeekCurrent"{emit(x.Pos(),x.End(),"io.SeekStart","SeekCurrent->Start")}
     swap:=map[string]string{"XMin":"XMax","XMax":"XMin","YMin":"YMax","YMax":"YMin","MaxInt":"MaxInt32","start":"end","end":"start"}
     if s,ok:=swap[x.Sel.Name];ok{ emit(x.Sel.Pos(),x.Sel.End(),s,x.Sel.Name+" -> "+s)}
     if x.Sel.Name=="MaxInt64"{emit(x.Sel.Pos(),x.Sel.End(),"MaxInt32","MaxInt64 -> 32")}
    case *ast.UnaryExpr:
     if x.Op==token.NOT {emit(x.Pos(),x.X.Pos(),"","drop !")}
    }
    return true})
  }
 }
}
