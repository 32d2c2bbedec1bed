#ifndef STUB_ROS_ASSERT_H
#define STUB_ROS_ASSERT_H
#include <cassert>
#define ROS_ASSERT(c) assert(c)
#define ROS_BREAK() assert(false)
#endif
