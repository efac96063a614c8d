// OpenCV is not used by the code under test
