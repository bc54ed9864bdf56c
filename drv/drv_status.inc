  // the registry: every case runs in a process of its own, because what has been registered is process state
  static unique_ptr<Status> S[4]; static pgbn_Status_t * CH[4]; static string LG; static deque<string> TAGS;
  struct H { static void cb(void * a) { LG += *(string *)a; LG += ','; } };
  auto logv = [] { P(LG.empty() ? "-" : LG); LG.clear(); };
  M["reg"] = [](const A & a) { string s = unhex(a[2]); { Buf v(s); Status::registe((pgbn::Enum)U(a[1]), pgbn::StringArg(v.data(), v.size())); } };
  M["regc"] = [](const A & a) { string s = unhex(a[2]), t = a[3]; { Buf v(s); Status::registe((pgbn::Enum)U(a[1]), pgbn::StringArg(v.data(), v.size()), [t] { LG += t; LG += ','; }); } };
  M["rega"] = [](const A & a) { string s = unhex(a[2]), t = a[3]; { Buf v(s); Status::registe((pgbn::Enum)U(a[1]), pgbn::StringArg(v.data(), v.size()), [](const string & x, int y) { LG += x; LG += y == 7 ? "," : "?"; }, t, 7); } };
  M["creg"] = [](const A & a) { auto s = make_unique<string>(unhex(a[2])); pgbn_Status_Register(U(a[1]), s->c_str()); (*s)[0] = '!'; };
  M["cregc"] = [](const A & a) { auto s = make_unique<string>(unhex(a[2])); TAGS.push_back(a[3]); pgbn_Status_RegisterWithCallback(U(a[1]), s->c_str(), &H::cb, &TAGS.back()); (*s)[0] = '!'; };
  M["info"] = [](const A & a) { P(hex(Status::getInfo((pgbn::Enum)U(a[1])))); };
  M["cinfo"] = [](const A & a) { P(hex(pgbn_Status_GetInfoByErrno(U(a[1])))); };
  M["find"] = [](const A & a) { PN(Status::find((pgbn::Enum)U(a[1]))); };
  M["findt"] = [](const A & a) { tuple<string, pgbn::Callback> junk, * t = &junk; bool r = Status::find((pgbn::Enum)U(a[1]), &t); PN(r); P(t ? hex(get<0>(*t)) : "null"); };
  M["cb"] = [logv](const A & a) { auto & c = Status::getCallback((pgbn::Enum)U(a[1])); if (!c) { P("none"); return; } c(); logv(); };
  M["scb"] = [logv](const A & a) { auto & c = S[N(a[1])]->getCallback(); if (!c) { P("none"); return; } c(); logv(); };
  // a library code nobody has re-registered: message and callback of its row in the table
  M["row"] = [](const A & a) {
    pgbn::Enum c = U(a[1]); string want; int n = 0;
    for (pgbn::SizeType i = 0; i < pgbn::errInfoCount; ++i) if (pgbn::errInfos[i].code == c) { want = pgbn::errInfos[i].info; n++; }
    P(n == 1 && !want.empty() ? "row" : "norow"); P(Status::getInfo(c) == want ? "msg" : "othermsg"); P(pgbn_Status_GetInfoByErrno(c) == want ? "msg" : "othermsg");
  };
  M["rowcb"] = [](const A & a) { // runs the callback in a child: one of them ends the process
    pgbn::Enum c = U(a[1]); string want; for (pgbn::SizeType i = 0; i < pgbn::errInfoCount; ++i) if (pgbn::errInfos[i].code == c) want = pgbn::errInfos[i].info;
    int fd[2]; if (pipe(fd)) abort(); fflush(stdout);
    pid_t p = fork(); if (!p) { dup2(fd[1], 2); close(fd[0]); { auto & f = Status::getCallback(c); if (f) f(); } fflush(stderr); _exit(0); }
    close(fd[1]); string o; char b[256]; ssize_t k; while ((k = read(fd[0], b, 256)) > 0) o.append(b, k); close(fd[0]); int st; waitpid(p, &st, 0);
    bool good = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == (int)c) && (o.empty() || (o.find(want) != string::npos && o.find("[" + to_string(c) + "]") != string::npos)); P(good ? "ok" : "bad:" + hex(o) + "/" + to_string(st));
  };
  M["new"] = [logv](const A & a) { S[N(a[1])] = make_unique<Status>((pgbn::Enum)U(a[2])); logv(); };
  M["asg"] = [logv](const A & a) { *S[N(a[1])] = (pgbn::Enum)U(a[2]); logv(); };
  M["sinfo"] = [](const A & a) { P(hex(S[N(a[1])]->getInfo())); };
  M["gset"] = [logv](const A & a) { *Status::getInstance() = (pgbn::Enum)U(a[1]); logv(); };
  M["ginfo"] = [](const A &) { P(hex(Status::getInstance()->getInfo())); };
  M["cgset"] = [logv](const A & a) { pgbn_Status_SetErrno(pgbn_Status_GetGlobalInstance(), U(a[1])); logv(); };
  M["cginfo"] = [](const A &) { P(hex(pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance()))); };
  M["cnew"] = [logv](const A & a) { CH[N(a[1])] = a.size() > 2 ? pgbn_Status_CreateWithErrno(U(a[2])) : pgbn_Status_Create(); logv(); };
  M["cset"] = [logv](const A & a) { pgbn_Status_SetErrno(CH[N(a[1])], U(a[2])); logv(); };
  M["csinfo"] = [](const A & a) { P(hex(pgbn_Status_GetInfo(CH[N(a[1])]))); };
  M["cdel"] = [](const A & a) { pgbn_Status_Destroy(CH[N(a[1])]); CH[N(a[1])] = nullptr; };
  M["thr"] = [](const A & a) { A b(a.begin() + 1, a.end()); thread t([b] { M.at(b[0])(b); }); t.join(); }; // the rest of the line, in a new thread
  M["par"] = [](const A & a) { // n threads look one code up, all starting to use the library
    int n = N(a[1]); pgbn::Enum c = U(a[2]); vector<string> r(n); vector<thread> t; atomic<int> go{0};
    for (int i = 0; i < n; i++) t.emplace_back([&, i] { go++; while (go < n) this_thread::yield(); Status::getInstance(); r[i] = hex(Status::getInfo(c)); });
    for (auto & x : t) x.join(); sort(r.begin(), r.end()); r.erase(unique(r.begin(), r.end()), r.end()); for (auto & x : r) P(x);
  };
  M["use"] = [logv](const A & a) { string s = unhex(a[1]); { Buf v(s); BigInteger x(pgbn::StringArg(v.data(), v.size()), N(a[2])); } logv(); }; // the library itself reports
  static pgbn_Status_t * GH;
  M["cgk"] = [](const A &) { GH = pgbn_Status_GetGlobalInstance(); };
  M["cgki"] = [](const A &) { P(hex(pgbn_Status_GetInfo(GH))); }; // a handle kept over what other threads do
  M["cgks"] = [logv](const A & a) { pgbn_Status_SetErrno(GH, U(a[1])); logv(); };
