// Stand-in for roscpp, sufficient to type-check (and, for the planted-bug
// demonstrations, to execute) the ROS-facing half of ethzasl_msf offline.
#ifndef STUB_ROS_ROS_H
#define STUB_ROS_ROS_H
#ifndef BOOST_BIND_GLOBAL_PLACEHOLDERS
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#endif
#include <algorithm>
#include <any>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <vector>
#include <boost/array.hpp>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <ros/time.h>
#include <ros/console.h>
#include <ros/assert.h>
namespace ros {
typedef std::vector<std::string> V_string;

// ---- state of the stand-in, readable by a demonstration ----
namespace stub {
struct Topic {
  std::vector<std::any> msgs;   // messages published, by value
  int subscribers = 0;
};
struct World {
  std::map<std::string, Topic> pub;
  std::map<std::string, std::function<void(const std::any&)>> sub;  // takes boost::shared_ptr<M const>
  std::map<std::string, std::function<bool(void*, void*)>> srv;
  std::map<std::string, std::any> params;
  std::vector<std::any> reconf;
};
inline World& world() { static World w; return w; }
}  // namespace stub

class TransportHints {
 public:
  TransportHints& tcpNoDelay(bool = true) { return *this; }
};
class Subscriber {
 public:
  std::string topic_;
  std::string getTopic() const { return topic_; }
  void shutdown() {}
};
class ServiceServer { public: void shutdown() {} };
class Publisher {
 public:
  std::string topic_;
  std::string getTopic() const { return topic_; }
  uint32_t getNumSubscribers() const {
    return static_cast<uint32_t>(stub::world().pub[topic_].subscribers);
  }
  template <class M> void publish(const boost::shared_ptr<M>& m) const {
    typedef typename std::remove_const<M>::type T;
    stub::world().pub[topic_].msgs.push_back(std::any(T(*m)));
  }
  template <class M> void publish(const M& m) const {
    stub::world().pub[topic_].msgs.push_back(std::any(m));
  }
};
namespace stub {
template <class A> struct MsgOf;
template <class M> struct MsgOf<boost::shared_ptr<M const> > { typedef M type; };
template <class M> struct MsgOf<const boost::shared_ptr<M const>&> { typedef M type; };
}
class NodeHandle {
 public:
  std::string ns_;
  explicit NodeHandle(const std::string& ns = "") : ns_(ns) {}
  NodeHandle(const NodeHandle&, const std::string& ns) : ns_(ns) {}
  const std::string& getNamespace() const { return ns_; }
  std::string resolveName(const std::string& n) const { return ns_ + "/" + n; }
  template <class T> bool param(const std::string& name, T& out, const T& def) const {
    auto it = stub::world().params.find(name);
    if (it != stub::world().params.end()) {
      if (const T* v = std::any_cast<T>(&it->second)) { out = *v; return true; }
    }
    out = def;
    return false;
  }
  template <class T> bool getParam(const std::string& name, T& out) const {
    auto it = stub::world().params.find(name);
    if (it == stub::world().params.end()) return false;
    if (const T* v = std::any_cast<T>(&it->second)) { out = *v; return true; }
    return false;
  }
  template <class M> Publisher advertise(const std::string& t, uint32_t, bool = false) {
    Publisher p; p.topic_ = t; stub::world().pub[t]; return p;
  }
  template <class M, class C>
  Subscriber subscribe(const std::string& t, uint32_t,
                       void (C::*f)(const boost::shared_ptr<M const>&), C* o,
                       const TransportHints& = TransportHints()) {
    stub::world().sub[t] = [f, o](const std::any& a) {
      (o->*f)(std::any_cast<boost::shared_ptr<M const> >(a));
    };
    Subscriber s; s.topic_ = t; return s;
  }
  template <class C, class Req, class Res>
  ServiceServer advertiseService(const std::string& n, bool (C::*f)(Req&, Res&), C* o) {
    stub::world().srv[n] = [f, o](void* a, void* b) {
      return (o->*f)(*static_cast<Req*>(a), *static_cast<Res*>(b));
    };
    return ServiceServer();
  }
};
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline void spin() {}
inline void spinOnce() {}
inline bool ok() { return true; }
namespace this_node {
inline void getAdvertisedTopics(V_string& t) { t.clear(); }
inline void getSubscribedTopics(V_string& t) { t.clear(); }
inline std::string getName() { return "stub"; }
inline std::string getNamespace() { return ""; }
}
}  // namespace ros
#endif
