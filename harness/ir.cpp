// Builds pairs of the generator's type and function descriptions from a prefix notation and prints what
// equality, hashing, caching and moving say about them. One line per pair: <kind> A ; B
#include <ClassType.h>
#include <ComposableBitfield.h>
#include <ComposableField.h>
#include <ConstQualifiedType.h>
#include <EasyMock_CType.h>
#include <Enum.h>
#include <FunctionDeclaration.h>
#include <FunctionType.h>
#include <IncompleteType.h>
#include <Namespace.h>
#include <Pointer.h>
#include <Reference.h>
#include <StructType.h>
#include <TypedefType.h>
#include <UnionType.h>
#include <iostream>
#include <map>
#include <sstream>

using T = std::shared_ptr<TypeItf>;
struct Rd
{
  std::istringstream s;
  std::map<std::string, T> shared;
  std::vector<std::shared_ptr<ComposableType>> keep;
  std::string w() { std::string x; s >> x; return x; }
  int i() { long long x = 0; s >> x; return (int)x; }
  long long ll() { long long x = 0; s >> x; return x; }
  std::string n() { std::string x = w(); return x == "~" ? "" : x; }
};
static T type(Rd &r);

static std::shared_ptr<const Namespace> ns(Rd &r)
{
  int n = r.i();
  std::shared_ptr<const Namespace> cur = getGlobalNamespace();
  for(int k = 0; k < n; k++)
  {
    cur = std::make_shared<const Namespace>(r.n(), cur);
  }
  return cur;
}
template<class D> static D decl(D d, const std::string &ds)
{
  if(!ds.empty()) d.setDeclareString(ds);
  return d;
}
static Parameter param(Rd &r)
{
  T t = type(r);
  std::string name = r.n(), ds = r.n();
  return decl(Parameter{std::move(t), name}, ds);
}
static ReturnValue rval(Rd &r)
{
  T t = type(r);
  std::string ds = r.n();
  return decl(ReturnValue{std::move(t)}, ds);
}
static Parameter::Vector params(Rd &r)
{
  Parameter::Vector v;
  int n = r.i();
  for(int k = 0; k < n; k++) v.push_back(param(r));
  return v;
}
static FunctionAttribute attr(Rd &r)
{
  std::string name = r.n();
  int n = r.i();
  FunctionAttribute::ParametersList l;
  for(int k = 0; k < n; k++) l.push_back(r.n());
  return FunctionAttribute{name, l};
}
static void flags(Rd &r, Function &f, bool tog)
{
  bool v = r.i(), in = r.i(), st = r.i(), cc = r.i();
  int acc = r.i(), na = r.i();
  if(tog)
  { // arrive at the same description over a detour
    f.setVariadic(!v); f.setInlined(!in); f.setIsStatic(!st); f.setClassConst(!cc);
    f.setAccessSpecifier((FunctionAccessSpecifier)((acc + 1) % 4));
    f.cacheHash();
  }
  f.setVariadic(v); f.setInlined(in); f.setIsStatic(st); f.setClassConst(cc);
  f.setAccessSpecifier((FunctionAccessSpecifier)acc);
  for(int k = 0; k < na; k++) f.addAttribute(attr(r));
  if(tog) f.cacheHash();
}
static std::shared_ptr<FunctionDeclaration> fdecl(Rd &r, std::weak_ptr<const ComposableType> parent)
{
  int tog = r.i();
  std::string name = r.n();
  auto n = ns(r);
  ReturnValue rv = rval(r);
  Parameter::Vector ps = params(r);
  std::shared_ptr<FunctionDeclaration> f;
  if(n->isGlobal() && parent.expired() && tog)
    f = std::make_shared<FunctionDeclaration>(name, std::move(rv), std::move(ps));
  else
    f = std::make_shared<FunctionDeclaration>(name, std::move(rv), std::move(ps), n, parent);
  bool body = r.i();
  if(tog) { f->setDoesThisDeclarationHasABody(!body); f->cacheHash(); }
  f->setDoesThisDeclarationHasABody(body);
  f->setOriginFile(tog ? "x.h" : "y.h");
  flags(r, *f, tog);
  return f;
}
static ComposableType::ComposableFieldType field(Rd &r)
{
  std::string k = r.w();
  if(k == "b")
  {
    T t = type(r);
    std::string name = r.n(), ds = r.n();
    int bits = r.i();
    return decl(ComposableBitfield{std::move(t), name, (uint8_t)bits}, ds);
  }
  T t = type(r);
  std::string name = r.n(), ds = r.n();
  int arr = r.i();
  if(k == "f")
  {
    return decl(ComposableField{std::move(t), name, {.arraySize = arr}}, ds);
  }
  ComposableField f = decl(ComposableField{std::move(t), name}, ds);
  if(arr >= 0)
  {
    f.setArraySize(arr + 1);
    f.cacheHash();
    f.setArraySize(arr);
    f.cacheHash();
  }
  return f;
}
template<class C> static T comp(Rd &r, bool route)
{
  std::string name = r.n();
  bool emb = r.i();
  bool fwd = r.i();
  int nf = r.i();
  std::shared_ptr<C> c;
  if(!route)
  {
    ComposableType::ComposableFieldTypeVector v;
    for(int k = 0; k < nf; k++) v.push_back(field(r));
    c = std::make_shared<C>(name, std::move(v), emb);
  }
  else
  {
    c = std::make_shared<C>(name, emb);
    c->setForwardDecl(!fwd);
    c->cacheHash();
    for(int k = 0; k < nf; k++) c->addField(field(r));
  }
  c->setForwardDecl(fwd);
  int nm = r.i();
  for(int k = 0; k < nm; k++) c->addFunction(fdecl(r, std::weak_ptr<const ComposableType>(c)));
  if(route) c->cacheHash();
  r.keep.push_back(c);
  return c;
}
static FunctionType ftype(Rd &r)
{
  int tog = r.i();
  ReturnValue rv = rval(r);
  Parameter::Vector ps = params(r);
  FunctionType f{std::move(rv), std::move(ps)};
  flags(r, f, tog);
  if(tog) f.cacheHash();
  return f;
}
static T type(Rd &r)
{
  std::string k = r.w();
  if(k == "c") return std::make_shared<CType>((easyMock_cTypes_t)r.i());
  if(k == "u")
  {
    auto c = std::make_shared<CType>((easyMock_cTypes_t)r.i());
    c->cacheHash();
    c->setUnsigned(r.i());
    c->cacheHash();
    return c;
  }
  if(k == "p") return std::make_shared<Pointer>(type(r));
  if(k == "P")
  {
    auto p = std::make_shared<Pointer>(std::make_shared<CType>(CTYPE_INT));
    p->cacheHash();
    p->setPointedType(type(r));
    p->cacheHash();
    return p;
  }
  if(k == "r") return std::make_shared<Reference>(type(r));
  if(k == "k") return std::make_shared<ConstQualifiedType>(type(r));
  if(k == "K")
  {
    auto q = std::make_shared<ConstQualifiedType>(std::make_shared<CType>(CTYPE_INT));
    q->cacheHash();
    q->setUnqualifiedType(type(r));
    q->cacheHash();
    return q;
  }
  if(k == "t")
  {
    std::string n = r.n();
    return std::make_shared<TypedefType>(n, type(r));
  }
  if(k == "s" || k == "S") return comp<StructType>(r, k == "S");
  if(k == "n" || k == "N") return comp<UnionType>(r, k == "N");
  if(k == "l" || k == "L") return comp<ClassType>(r, k == "L");
  if(k == "e" || k == "E")
  {
    auto e = std::make_shared<Enum>(r.n());
    int n = r.i();
    std::vector<std::pair<std::string, long long>> v;
    for(int j = 0; j < n; j++)
    {
      std::string s = r.n();
      v.push_back({s, r.ll()});
    }
    if(k == "E") e->cacheHash();
    for(auto &x: v) e->addEnumValue(x.second, x.first);
    if(k == "E") e->cacheHash();
    return e;
  }
  if(k == "i")
  {
    int kind = r.i();
    std::string n = r.n();
    if(kind == 0) return std::make_shared<IncompleteType>(StructType{n, false}, IncompleteType::Type::STRUCT);
    if(kind == 1) return std::make_shared<IncompleteType>(UnionType{n, false}, IncompleteType::Type::UNION);
    return std::make_shared<IncompleteType>(ClassType{n, false}, IncompleteType::Type::CLASS);
  }
  if(k == "f") return std::make_shared<FunctionType>(ftype(r));
  if(k == "m")
  {
    T t = type(r);
    t->setImplicit(false);
    t->setImplicit(true);
    t->cacheHash();
    return t;
  }
  if(k == "=")
  {
    std::string id = r.w();
    T t = type(r);
    r.shared[id] = t;
    return t;
  }
  if(k == "@") return r.shared.at(r.w());
  throw std::runtime_error("type " + k);
}

static std::string raw(const TypeItf &t)
{
  return std::to_string(t.getRawHash());
}
static std::string raw(const FunctionType &t) { return std::to_string(t.TypeItf::getRawHash()) + "/" + std::to_string(t.Function::getRawHash()); }
static std::string raw(const Function &f) { return std::to_string(f.getRawHash()); }
template<class X> static std::string raw(const X &) { return "0"; }

// All the laws of a pair whose objects can be compared through Base.
template<class Base> static void laws(Base &a, Base &b, Base &a2)
{
  auto h = [](const Base &x) { return (unsigned long long)x.getHash(); };
  std::cout << "eq " << (a == b) << (b == a) << (a == a) << (b == b) << (a == a2) << (a2 == a) << " ne " << (a != b) << (b != a) << (a != a) << (a != a2);
  std::cout << " h " << h(a) << ' ' << h(b) << ' ' << h(a2);
  a.cacheHash();
  std::cout << " c " << h(a);
  a.cacheHash();
  std::cout << ' ' << h(a) << " eqc " << (a == b) << (b == a) << (a == a2) << (a2 == a);
  b.cacheHash();
  std::cout << " cb " << h(b) << " eqcc " << (a == b) << (b == a);
}
template<class C> static void moved(C &&tmp, C &&slot, const C &ref, bool slotOk)
{
  // move construction, then move assignment over another object
  unsigned long long h0 = tmp.getHash();
  C m{std::move(tmp)};
  std::cout << " mv " << (m == ref) << (ref == m) << ((unsigned long long)m.getHash() == h0);
  if(slotOk)
  {
    slot = std::move(m);
    std::cout << (slot == ref) << (ref == slot) << ((unsigned long long)slot.getHash() == h0);
  }
}
static void kinds(TypeItf &t)
{
  std::string s;
  s += t.isCType() ? 'C' : '-';
  s += t.isStruct() ? 'S' : '-';
  s += t.isUnion() ? 'U' : '-';
  s += t.isPointer() ? 'P' : '-';
  s += t.isReference() ? 'R' : '-';
  s += t.isFunctionType() ? 'F' : '-';
  s += t.isEnum() ? 'E' : '-';
  s += t.isIncompleteType() ? 'I' : '-';
  s += t.isTypedDef() ? 'T' : '-';
  s += t.isQualified() ? 'Q' : '-';
  s += t.isConst() ? 'K' : '-';
  s += t.isComposableType() ? 'O' : '-';
  s += t.isImplicit() ? 'M' : '-';
  std::cout << " kinds " << s;
}
template<class X> static void movedType(TypeItf &a, TypeItf &b, TypeItf &a2)
{
  X *x = dynamic_cast<X *>(&a);
  X *y = dynamic_cast<X *>(&b);
  X *z = dynamic_cast<X *>(&a2);
  if(x && z && typeid(a) == typeid(X)) moved<X>(std::move(*x), y ? std::move(*y) : std::move(*x), *z, y != nullptr && typeid(b) == typeid(X));
}

int main()
{
  std::string line;
  while(std::getline(std::cin, line))
  {
    std::string kind = line.substr(0, 1);
    size_t p = line.find(" ; ");
    std::string sa = line.substr(2, p - 2), sb = line.substr(p + 3);
    Rd ra, rb, rc;
    ra.s.str(sa); rb.s.str(sb); rc.s.str(sa);
    if(kind == "T")
    {
      T a = type(ra), b = type(rb), c = type(rc);
      kinds(*a);
      std::cout << ' ';
      laws<TypeItf>(*a, *b, *c);
      // raw hash: a type, a typedef of it and a typedef of that; before and after caching
      T fresh;
      { Rd rr; rr.s.str(sa); fresh = type(rr); for(auto &k: rr.keep) ra.keep.push_back(k); }
      auto td = std::make_shared<TypedefType>("td_one", fresh);
      auto td2 = std::make_shared<TypedefType>("td_two", td);
      std::cout << " raw " << raw(static_cast<TypeItf &>(*fresh)) << ' ' << raw(static_cast<TypeItf &>(*td)) << ' ' << raw(static_cast<TypeItf &>(*td2));
      td2->cacheHash();
      std::cout << ' ' << raw(static_cast<TypeItf &>(*td)) << ' ' << raw(static_cast<TypeItf &>(*td2)) << ' ' << raw(static_cast<TypeItf &>(*b));
      movedType<CType>(*a, *b, *c);
      movedType<Pointer>(*a, *b, *c);
      movedType<Reference>(*a, *b, *c);
      movedType<ConstQualifiedType>(*a, *b, *c);
      movedType<TypedefType>(*a, *b, *c);
      movedType<Enum>(*a, *b, *c);
      movedType<StructType>(*a, *b, *c);
      movedType<UnionType>(*a, *b, *c);
      movedType<ClassType>(*a, *b, *c);
    }
    else if(kind == "D")
    {
      auto a = fdecl(ra, {}), b = fdecl(rb, {}), c = fdecl(rc, {});
      std::cout << " kinds - ";
      std::cout << "rawf " << a->getRawHash() << ' ' << b->getRawHash() << ' ';
      laws<FunctionDeclaration>(*a, *b, *c);
      std::cout << " rawfc " << a->getRawHash() << ' ' << b->getRawHash();
      moved<FunctionDeclaration>(std::move(*a), std::move(*b), *c, true);
    }
    else if(kind == "Y")
    {
      FunctionType a = ftype(ra), b = ftype(rb), c = ftype(rc);
      std::cout << " kinds - ";
      std::cout << "rawf " << a.Function::getRawHash() << ' ' << b.Function::getRawHash() << ' ';
      laws<FunctionType>(a, b, c);
      std::cout << " rawfc " << a.Function::getRawHash() << ' ' << b.Function::getRawHash();
      moved<FunctionType>(std::move(a), std::move(b), c, true);
    }
    else if(kind == "R")
    {
      ReturnValue a = rval(ra), b = rval(rb), c = rval(rc);
      std::cout << " kinds - ";
      laws<ReturnValue>(a, b, c);
      moved<ReturnValue>(std::move(a), std::move(b), c, true);
    }
    else if(kind == "M")
    {
      Parameter a = param(ra), b = param(rb), c = param(rc);
      std::cout << " kinds - ";
      laws<Parameter>(a, b, c);
      moved<Parameter>(std::move(a), std::move(b), c, true);
    }
    else if(kind == "F")
    {
      auto a = field(ra), b = field(rb), c = field(rc);
      std::cout << " kinds - ";
      // through the common base: a field and a bit-field can be compared
      auto base = [](ComposableType::ComposableFieldType &v) -> Declarator & {
        return std::visit([](auto &x) -> Declarator & { return x; }, v);
      };
      laws<Declarator>(base(a), base(b), base(c));
      if(a.index() == 0) moved<ComposableField>(std::move(std::get<0>(a)), b.index() == 0 ? std::move(std::get<0>(b)) : std::move(std::get<0>(a)), std::get<0>(c), b.index() == 0);
      else moved<ComposableBitfield>(std::move(std::get<1>(a)), b.index() == 1 ? std::move(std::get<1>(b)) : std::move(std::get<1>(a)), std::get<1>(c), b.index() == 1);
    }
    else if(kind == "A")
    {
      FunctionAttribute a = attr(ra), b = attr(rb), c = attr(rc);
      std::cout << " kinds - ";
      laws<FunctionAttribute>(a, b, c);
      moved<FunctionAttribute>(std::move(a), std::move(b), c, true);
    }
    else if(kind == "N")
    {
      auto a = ns(ra), b = ns(rb), c = ns(rc);
      Namespace x{a->m_name, a->m_parent}, y{b->m_name, b->m_parent}, z{c->m_name, c->m_parent};
      std::cout << " kinds - ";
      laws<Namespace>(x, y, z);
    }
    std::cout << std::endl;
  }
}
