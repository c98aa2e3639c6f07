// Witness: HTTP server: requests, responses, routes, sockets.
#include "blocks/http/api.h"
namespace verif_http {
CURRENT_STRUCT(Obj) { CURRENT_FIELD(x, int32_t); };
CURRENT_STRUCT(Obj2) { CURRENT_FIELD(y, std::string); };
CURRENT_VARIANT(Var, Obj, Obj2);
using current::http::Request;
using current::http::Response;
using current::http::ReRegisterRoute;
using current::net::ChunkFlush;
using current::net::Connection;
using current::net::HTTPResponder;
using current::net::HTTPResponseCodeValue;
using H = current::net::http::Headers;
template <typename T>
void use_responder(Connection& c, T&& t, const H& h, const std::string& ct, HTTPResponseCodeValue code) {
  HTTPResponder::SendHTTPResponse(c, std::forward<T>(t));
  HTTPResponder::SendHTTPResponse(c, std::forward<T>(t), code);
  HTTPResponder::SendHTTPResponse(c, std::forward<T>(t), code, h, ct);
}
void use_connection(Connection& c, const H& h, const std::string& ct, HTTPResponseCodeValue code) {
  std::vector<char> v;
  const std::vector<uint8_t> u;
  use_responder(c, v, h, ct, code);
  use_responder(c, u, h, ct, code);
  HTTPResponder::SendHTTPResponse(c, v.begin(), v.end(), code, ct, h);
  HTTPResponder::SendHTTPResponse(c, v.begin(), v.end(), code, h, ct);
  HTTPResponder::SendHTTPResponse(c, v.begin(), v.end(), ct, h);
  HTTPResponder::SendHTTPResponse(c, v.begin(), v.end(), h, ct);
  HTTPResponder::SendHTTPResponse(c, v.begin(), v.end(), code);
  HTTPResponder::SendHTTPResponse(c, v.begin(), v.end());
  HTTPResponder::SendHTTPResponse(c, v, code, ct, h);
  HTTPResponder::SendHTTPResponse(c, v, ct, h);
  HTTPResponder::SendHTTPResponse(c, v, h, ct);
  std::string s;
  use_responder(c, s, h, ct, code);
  HTTPResponder::SendHTTPResponse(c, s, code, h);
  HTTPResponder::SendHTTPResponse(c, s, code, ct);
  Obj o;
  const Var w;
  use_responder(c, o, h, ct, code);
  HTTPResponder::SendHTTPResponse(c, o, code, h);
  HTTPResponder::SendHTTPResponse(c, o, code, ct);
  use_responder(c, w, h, ct, code);
  HTTPResponder::SendHTTPResponse(c, w, code, h);
  HTTPResponder::SendHTTPResponse(c, w, code, ct);
  current::net::HTTPServerConnection sc(std::move(c));
  sc.SendHTTPResponse(s);
  sc.SendHTTPResponse(s, code, h, ct);
  sc.SendHTTPResponse(o);
  sc.SendHTTPResponse(v, code);
  sc.DoNotSendAnyResponse();
  sc.RawConnection();
  sc.HTTPRequest().Body();
  sc.HTTPRequest().BodyLength();
  sc.HTTPRequest().RawPath();
  auto snd = sc.SendChunkedHTTPResponse(code, h, ct);
  snd.Send(s);
  snd.Send(std::move(v), ChunkFlush::NoFlush);
  snd.Send(o);
  snd(s);
  snd(s, ChunkFlush::NoFlush);
  auto snd2 = sc.SendChunkedHTTPResponse<7>(code, h, ct);
  snd2.Send(s);
}
void use_request(Request r, const H& h, const std::string& ct, HTTPResponseCodeValue code) {
  std::string s;
  Obj o;
  Request r2(std::move(r));
  r2(s);
  r2(o);
  r2("x", code, h, ct);
  r2.SendChunkedResponse(code, h, ct);
  Response p;
  r2(p);
  r2(Response(s));
  Response q(p);
  q = p;
  Response(o, code);
  Response(s, code);
  Response(o, std::string("name"), code);
  Response(s, code, h);
  Response(o, code, h);
  Response(o, std::string("name"), code, h);
  Response(s, code, ct, h);
  Response(o, code, ct, h);
  Response(o, std::string("name"), code, ct, h);
  (void)Response(code);
  Response r4{code};
  Response(code, ct);
  Response(code, ct, h);
  p.Body(s).JSON(o).JSON(o, s).Code(code).ContentType(ct).Headers(h).SetHeader(s, s).SetCookie(s, s).DisableCORS().EnableCORS();
  p.DoRespondViaHTTP(std::move(r2));
}
struct Handler {
  void operator()(Request);
};
void use_server(std::function<void(Request)> f, URLPathArgs::CountMask m) {
  current::http::HTTPServerPOSIX a(current::net::BarePort(1));
  current::http::HTTPServerPOSIX b(current::net::ReserveLocalPort());
  Handler h;
  auto s = a.Register("/a", h);
  s += a.Register("/b", f);
  s += a.Register("/c", m, h);
  s += a.Register("/c", m, f);
  s += a.Register<ReRegisterRoute::SilentlyUpdateExisting>("/c", m, f);
  s += a.Register<ReRegisterRoute::SilentlyUpdateExisting>("/c", h);
  a.UnRegister("/a");
  s += a.ServeStaticFilesFrom("dir");
  a.PathHandlersCount();
  a.LocalPort();
  a.Join();
  auto t = std::move(s);
  s = std::move(t);
  s = nullptr;
}
void use_client() {
  const auto r = HTTP(GET("localhost/"));
  const auto r2 = HTTP(POST("localhost/", "body", "text"));
  const auto r3 = HTTP(POST("localhost/", Obj()));
  HTTP(ChunkedGET("localhost/", [](const std::string&, const std::string&) {}, [](const std::string&) {}, []() {}));
}
void use_socket() {
  current::net::Socket s(current::net::BarePort(1));
  current::net::Socket t(std::move(s));
  s = std::move(t);
  Connection c = s.Accept();
  Connection d(std::move(c));
  Connection e = current::net::ClientSocket("localhost", 1);
  char buf[10];
  e.BlockingRead(buf, 10);
  e.BlockingRead(buf, 10, Connection::FillFullBuffer);
  e.BlockingWrite("x", false);
  e.BlockingWrite(std::string("x"), true);
  current::net::ReservedLocalPort p = current::net::ReserveLocalPort();
  current::net::ReservedLocalPort q(std::move(p));
  current::net::ReserveLocalPort(1);
  current::net::ResolveIPFromHostname("x");
}
void use_headers() {
  H h;
  const H& ch = h;
  H g(h);
  g = h;
  g = std::move(h);
  H k(std::move(g));
  k.Set("a", "b").Remove("a");
  k.Has("a");
  ch.Get("a");
  ch.GetOrDefault("a", "b");
  ch["a"];
  k["a"] = "b";
  k.SetHeaderOrCookie("a", "b");
  k.push_back({"a", "b"});
  k.emplace_back("a", "b");
}
}  // namespace verif_http
