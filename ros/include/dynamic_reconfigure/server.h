#ifndef STUB_DYNREC_H
#define STUB_DYNREC_H
#include <ros/ros.h>
#include <limits>
namespace dynamic_reconfigure {
template <class ConfigType> class Server {
 public:
  typedef boost::function<void(ConfigType&, uint32_t)> CallbackType;
  CallbackType cb_;
  ConfigType config_;
  explicit Server(const ros::NodeHandle& = ros::NodeHandle("~")) : config_(ConfigType::__getDefault__()) {
    ros::stub::world().reconf.push_back(std::any(static_cast<void*>(this)));
  }
  void setCallback(const CallbackType& cb) {
    cb_ = cb;
    cb_(config_, std::numeric_limits<uint32_t>::max());   // as roscpp does
  }
  void updateConfig(const ConfigType& c) { config_ = c; }
};
}
#endif
