#ifndef STUB_TF_H
#define STUB_TF_H
#include <ros/ros.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
namespace tf {
class Vector3 { public: double x_, y_, z_; Vector3(double x = 0, double y = 0, double z = 0) : x_(x), y_(y), z_(z) {} };
class Quaternion { public: double x_, y_, z_, w_; Quaternion(double x = 0, double y = 0, double z = 0, double w = 1) : x_(x), y_(y), z_(z), w_(w) {} };
class Transform {
 public:
  Vector3 o_; Quaternion r_;
  void setOrigin(const Vector3& o) { o_ = o; }
  void setRotation(const Quaternion& r) { r_ = r; }
};
class StampedTransform : public Transform {
 public:
  ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c)
      : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
};
class TransformBroadcaster {
 public:
  void sendTransform(const StampedTransform& t) { ros::stub::world().pub["/tf"].msgs.push_back(std::any(t)); }
};
}
#endif
