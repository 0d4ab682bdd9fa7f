P=/opt/hpp-venv/lib/python3.12/site-packages/cmeel.prefix
export LD_LIBRARY_PATH=$P/lib:$P/lib64 ROS_PACKAGE_PATH=$P/share:$P/share/example-robot-data/robots
